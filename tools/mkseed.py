#!/usr/bin/env python3
"""mkseed.py FILE...: makes seeded/<id>/ from definitions (python files with
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], DEMO = C++ source).
Everything is confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = """#!/bin/bash
# exit 0: the property holds on this demonstration
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -w %s -I"$PWD/matrix" "$here/demo.cpp" -o "$tmp/demo" -lpthread || exit 2
timeout 120 "$tmp/demo" > "$tmp/out" 2>&1
rc=$?
tail -5 "$tmp/out"
exit $rc
"""
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def stable():
    return set(BASE["passed"] if "passed" in BASE else BASE["stable"] if "stable" in BASE else BASE["tests"])
def main():
    rc = 0
    scratch = tempfile.mkdtemp(prefix="seedwt")
    w = scratch + "/repo"
    sh("git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s" % (w, w))
    sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm base", cwd=w)
    for f in sys.argv[1:]:
        d = {}
        exec(open(f).read(), d)
        sid = d["ID"]
        sh("git checkout -q -- .", cwd=w)
        ok = True
        dest = os.path.join(V, "seeded", sid)
        os.makedirs(dest, exist_ok=True)
        open(dest + "/demo.cpp", "w").write(d["DEMO"])
        for n, body in d.get("FILES", {}).items(): open(dest + "/" + n, "w").write(body)
        open(dest + "/demo.sh", "w").write(d["SH"] if "SH" in d else DEMO_SH % d.get("FLAGS", "-O1"))
        os.chmod(dest + "/demo.sh", 0o755)
        a = sh("bash %s/demo.sh" % dest, cwd=w)
        if a.returncode: print(sid, "DEMO FAILS on the unchanged tree", a.returncode, a.stdout[-500:], a.stderr[-1500:]); ok = False
        for path, old, new in d["EDITS"]:
            p = w + "/" + path
            s = open(p).read()
            if s.count(old) != 1: print(sid, "edit matches %d times in %s" % (s.count(old), path)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=w).stdout
        b = sh("bash %s/demo.sh" % dest, cwd=w)
        if b.returncode == 0: print(sid, "DEMO PASSES with the change"); ok = False
        if b.returncode == 2: print(sid, "demo does not compile with the change", b.stderr[-1500:]); ok = False
        bd = w + "/_build"
        c = sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_PROJECT_INCLUDE=/opt/vp/cxx14.cmake -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_TESTS=ON -DBUILD_BENCH=ON -DSANITIZER=OFF -DENABLE_LTO=OFF && ninja -C %s" % (w, bd, bd))
        if c.returncode: print(sid, "BUILD FAILS", c.stdout[-1500:]); ok = False
        t = sh("python3 /opt/vp/run_gtests.py %s > %s/l; python3 /opt/vp/results.py %s/o.json lines:%s/l" % (bd, scratch, scratch, scratch))
        try:
            res = json.load(open(scratch + "/o.json"))
            miss = stable() - set(res["passed"])
        except Exception as e:
            miss = {str(e) + t.stderr}
        if miss: print(sid, "TESTS FAIL:", sorted(miss)[:5]); ok = False
        if ok:
            open(dest + "/patch.diff", "w").write(diff)
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(dest + "/meta.json", "w"), indent=1)
            print(sid, "ok", d["PROPERTY"])
        else:
            shutil.rmtree(dest); rc = 1
    shutil.rmtree(scratch)
    return rc
sys.exit(main())
