#!/usr/bin/env python3
"""benign.py make SPEC.py [NAME...]   make benign/<name>.diff from the edits of SPEC.py
   benign.py run [-t TIER] NAME... [-c ID...]  apply each to a copy, and run all (or the given)
   checks, which must stay quiet (of the last commit).

SPEC.py calls edit(name, [(file, old, new)...]); calls of one name add up."""
import os, subprocess, sys, tempfile, shutil, re, time
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -tags=safe")
def sh(cmd, cwd, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
if sys.argv[1] == "make":
    groups = {}
    def edit(name, edits): groups.setdefault(name, []).extend(edits)
    exec(open(sys.argv[2]).read())
    for name, edits in groups.items():
        if sys.argv[3:] and name not in sys.argv[3:]: continue
        tmp = tempfile.mkdtemp(prefix="benign-"); wt = tmp + "/repo"
        try:
            subprocess.check_call(["cp", "-a", "/repo", wt])
            ok = True
            for f, old, new in edits:
                s = open(f"{wt}/{f}").read()
                if s.count(old) != 1: print(name, "BAD EDIT", f, s.count(old), repr(old)[:200]); ok = False; continue
                open(f"{wt}/{f}", "w").write(s.replace(old, new))
            sh("gofmt -w " + " ".join({e[0] for e in edits}), wt)
            rc, out = sh("go build ./... && go vet ./... && go test -vet=off -count=1 -timeout 5m ./... 2>&1 | grep -v 'no test files'", wt)
            if "FAIL" in out or "panic" in out or "vet:" in out or "./" in out: ok = False; print(name, out[-2500:])
            _, diff = sh("git diff", wt)
            open(f"{verif}/benign/{name}.diff", "w").write(diff)
            print(name, "ok" if ok else "NOT OK", diff.count("\n+"), "lines added")
        finally:
            shutil.rmtree(tmp)
else:
    a = sys.argv[2:]; tier = "quick"; ids = []
    if a[0] == "-t": tier = a[1]; a = a[2:]
    if "-c" in a: i = a.index("-c"); ids = a[i+1:]; a = a[:i]
    for name in a:
        tmp = tempfile.mkdtemp(prefix="benign-")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/repo"])
            subprocess.check_call(["git", "clone", "-q", verif, tmp + "/verif"])
            os.makedirs(tmp + "/verif/evidence", exist_ok=True)
            p = tmp + "/verif/mc/drive/main.go"
            m = open(p).read(); assert 'repo     = "/repo"' in m
            open(p, "w").write(m.replace('repo     = "/repo"', f'repo     = "{tmp}/repo"'))
            subprocess.check_call(["git", "-C", tmp + "/repo", "apply", "--whitespace=nowarn", f"{verif}/benign/{name}.diff"])
            t = time.time()
            _, out = sh(f"tools/all.sh {tier} " + " ".join(ids), tmp + "/verif", 40 * 900)
            bad = [l for l in out.splitlines() if not re.search(r"^C\d\d:? .*(quiet|ok|held)", l)]
            print(f"== {name} {time.time()-t:.0f}s"); print(out, flush=True)
        finally:
            shutil.rmtree(tmp)
