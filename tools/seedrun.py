#!/usr/bin/env python3
"""seedrun.py [--all-checks] [ID...]: applies each seeded change to a scratch copy of /repo and runs
its property's check (or every check) against the copy."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
allc = "--all-checks" in sys.argv
S = os.path.join(V, "seeded")
for sid in args or sorted(os.listdir(S)):
    meta = json.load(open("%s/%s/meta.json" % (S, sid)))
    tmp = tempfile.mkdtemp(prefix="seedrun")
    subprocess.run("mkdir %s/repo && git -C /repo archive HEAD | tar -x -C %s/repo && cd %s/repo && git init -q . && git apply %s/%s/patch.diff" % (tmp, tmp, tmp, S, sid), shell=True, check=True)
    for p in ["C%02d" % k for k in range(1, 25)] if allc else [meta["property"]]:
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", "--prop", p], env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_WORK=tmp + "/w"), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(sid, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), len(v), "%.0fs" % (time.time() - t), flush=True)
        if r.returncode not in (0, 1): print(r.stderr[-800:])
    shutil.rmtree(tmp)
