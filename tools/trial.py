#!/usr/bin/env python3
"""Try edits of /repo's source against analysis units, in scratch copies.

usage: trial.py FILE.py [id...]   FILE.py defines T = [dict(id, edits=[(file, old, new)], units=[...], ok=bool)]
ok=True: the edit keeps the behaviour, every unit must stay quiet; ok=False: at least one unit must report.
"""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
az = os.environ.get("AZ", "/tmp/az")
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")

def one(t):
    d = tempfile.mkdtemp(prefix="trial-", dir="/tmp")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in t["edits"]:
            p = os.path.join(r, f)
            b = open(p, newline="").read()
            crlf = "\r\n" in b
            b = b.replace("\r\n", "\n")
            if b.count(old) < 1:
                return t, "EDIT DOES NOT APPLY: " + repr(old[:80])
            b = b.replace(old, new, 1)
            if crlf:
                b = b.replace("\n", "\r\n")
            open(p, "w", newline="").write(b)
        p = subprocess.run(["go", "build", "./..."], cwd=r, env=dict(env, GOFLAGS=""), capture_output=True, text=True)
        if p.returncode:
            return t, "DOES NOT BUILD: " + p.stderr[:600]
        out = ""
        for u in t["units"]:
            q = subprocess.run([az, "-repo", r, "-unit", u], env=dict(env, GOFLAGS=""), cwd="/verif/analyzer", capture_output=True, text=True)
            out += q.stdout + q.stderr[-2000:]
        failed = "FAIL" in out or "panic" in out or "obligations" not in out
        res = "ok" if failed != t["ok"] else ("FALSE ALARM" if t["ok"] else "MISSED")
        det = [l[:400] for l in out.splitlines() if "FAIL" in l][:3] or out.splitlines()[-3:]
        return t, res + ("" if res == "ok" and not os.environ.get("V") else "\n      " + "\n      ".join(x[:400] for x in det))
    finally:
        shutil.rmtree(d)

ts = [t for t in ns["T"] if not want or t["id"] in want]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for t, r in ex.map(one, ts):
        print(("refactor " if t["ok"] else "bug      ") + t["id"], r, flush=True)
