#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: make and confirm planted bugs.

SPEC.py calls seed(...). For each: a scratch copy of /repo is edited, the
patch is written to seeded/<id>/, and it is confirmed that the patch builds,
removes only lines of the original repository, passes the tests, and that the
demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "cc3ed34"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -tags=safe")
DEMO = '''#!/bin/bash
# Run in /repo: exit 0 if the property held in the demonstration.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -tags=safe"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 240s%(flags)s -run 'TestSeedDemo' ./%(pkg)s
'''
want = set(sys.argv[2:])
bad = []
def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
def seed(id, prop, needs, breaks, edits, pkg, test, flags=""):
    if want and id not in want: return
    tmp = tempfile.mkdtemp(prefix="seed-")
    wt = tmp + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", wt])
        orig = {}
        for f, old, new in edits:
            s = open(f"{wt}/{f}").read()
            orig.setdefault(f, s)
            if s.count(old) != 1:
                bad.append(id); print(id, "BAD EDIT", f, s.count(old), repr(old)); return
            open(f"{wt}/{f}", "w").write(s.replace(old, new))
        sh("gofmt -w " + " ".join(orig), wt)
        rc, diff = sh("git diff", wt)
        # removed lines
        msg = []
        for f in orig:
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
            d = subprocess.run(["git", "-C", wt, "diff", "-U0", f], capture_output=True, text=True).stdout
            n = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, c = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(a, a + c):
                    b = bl[i - 1]
                    code = b.split(")", 1)[1].strip()
                    if BASE in b[:9]: n += bool(code) and not code.startswith("//")
                    elif b.split(")", 1)[1].strip(): msg.append("removes a line of a fix: " + b)
            if n == 0: msg.append("removes no original line in " + f)
        rc, out = sh("go build ./... && go vet " + " ".join(sorted({"./" + os.path.dirname(f) if os.path.dirname(f) else "." for f in orig})), wt)
        if rc: msg.append("build: " + out[-1500:])
        rc, out = sh("go test -vet=off -count=1 -timeout 5m ./... 2>&1 | grep -v 'no test files'", wt)
        if "FAIL" in out or "panic" in out: msg.append("tests: " + out[-1500:])
        dst = f"{verif}/seeded/{id}"
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        open(dst + "/demo_test.go", "w").write(test.strip() + "\n")
        sh("gofmt -w demo_test.go", dst)
        open(dst + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=flags and " " + flags))
        os.chmod(dst + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dst + "/meta.json", "w"), indent=1)
        for k in range(2):
            rc, out = sh(f"{dst}/demo.sh", wt)
            if rc == 0: msg.append("the demo passes with the patch"); break
            if "build failed" in out or "setup failed" in out: msg.append("demo does not build: " + out[-800:]); break
        if k == 1: pout = out
        rc, out = sh("git checkout -q -- . && " + f"{dst}/demo.sh", wt)
        if rc: msg.append("the demo fails without the patch: " + out[-1500:])
        if msg:
            bad.append(id)
            shutil.rmtree("/tmp/trial/" + id, ignore_errors=True); os.makedirs("/tmp/trial", exist_ok=True)
            shutil.move(dst, "/tmp/trial/" + id)  # can still be tried: DIR=/tmp/trial tools/tryseed.sh
            print(id, "NOT CONFIRMED:", "\n   ".join(x[-500:] for x in msg))
        else:
            print(id, "confirmed:", " | ".join(l.strip() for l in pout.splitlines() if "zz_seed_test" in l or "DATA RACE" in l or "panic" in l)[:160])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
exec(open(sys.argv[1]).read())
print("not confirmed:", bad)
