#!/usr/bin/env python3
"""Development helper: python3 seed.py SPEC.py [id...]   plants bugs described in a spec file.
Each bug: dict(id, property, file, old, new, needs, breaks, pkg, test). It makes seeded/<id>/
with patch.diff, demo.sh, demo_test.go.txt and meta.json after confirming in a scratch copy that the
change builds, passes the stable tests, and that the demonstration passes without and fails with it."""
import sys, os, subprocess, json, shutil, runpy, tempfile
spec = runpy.run_path(sys.argv[1])
want = set(sys.argv[2:])
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# Fails when the planted change is present. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/ov.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
J
GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go test -count=1 -vet=off -overlay "$tmp/ov.json" -run 'TestDemo' ./%(pkg)s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)
for b in spec["BUGS"]:
    if want and b["id"] not in want: continue
    d = "/verif/seeded/" + b["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed"); r = w + "/repo"
    try:
        run(["cp", "-a", "/repo", r], "/")
        run(["git", "checkout", "-q", "--", "."], r)
        for (f, old, new) in b["edits"]:
            p = r + "/" + f
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(b["test"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        bad = run(["bash", d + "/demo.sh"], r)
        t = run(["go", "test", "./..."], r, env=env)
        bl = run(["go", "build", "./..."], r, env=env)
        run(["git", "checkout", "-q", "--", "."], r)
        ok = run(["bash", d + "/demo.sh"], r)
        fails = [l for l in (t.stdout + t.stderr).splitlines() if l.startswith("FAIL") or l.startswith("--- FAIL")]
        print(b["id"], "OK" if ok.returncode == 0 and bad.returncode != 0 and bl.returncode == 0 and "build failed" not in bad.stdout else "PROBLEM",
              "demo clean", ok.returncode, "demo planted", bad.returncode, "build", bl.returncode, "testfails", fails)
        if ok.returncode != 0: print(ok.stdout[-1500:], ok.stderr[-500:])
        if bad.returncode == 0 or "build failed" in bad.stdout or "panic" not in bad.stdout and "FAIL" not in bad.stdout: print(bad.stdout[-1500:], bad.stderr[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
