#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a spec file (python: SEEDS list) after confirming each planted change in a scratch copy.
usage: mkseed.py SPEC.py [id...]   (development tool; no check uses it)"""
import sys, os, json, subprocess, shutil, tempfile, runpy
spec = runpy.run_path(sys.argv[1])["SEEDS"]
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; cwd is the repository
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_seeded_demo_test.go" "$d/demo_test.go" > "$o"
timeout 200 go test -overlay "$o" -count=1 %(flags)s -run 'TestSeededDemo' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)
for s in spec:
    if want and s["id"] not in want: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seed-")
    repo = wt + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    try:
        for f, old, new in s["edits"]:
            t = open(f"{repo}/{f}").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(f"{repo}/{f}", "w").write(t.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], flags=s.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = run(["bash", d + "/demo.sh"], "/repo")
        r1 = run(["bash", d + "/demo.sh"], repo)
        b = run(["go", "build", "./..."], repo)
        v = run(["go", "test", "-count=1", "./..."], repo)
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0
        print(s["id"], s["prop"], "demo-clean", r0.returncode, "demo-bug", r1.returncode, "build", b.returncode, "tests", v.returncode, "OK" if ok and v.returncode == 0 else "*** CHECK")
        if not ok: print(r0.stdout[-800:], r0.stderr[-500:], "----", r1.stdout[-800:], b.stderr)
        elif "build failed" in r1.stdout: print("*** demo build failure", r1.stdout[-500:])
        if v.returncode: print("\n".join(l for l in v.stdout.splitlines() if "FAIL" in l))
    finally:
        shutil.rmtree(wt)
