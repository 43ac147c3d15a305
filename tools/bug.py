#!/usr/bin/env python3
"""Plant bugs.  bug.py FILE.py: FILE defines BUGS, a list of dicts
   id, property, needs, breaks, edits=[(file, old, new)], demo (Go main package text).
Each is applied in a scratch copy of /repo, built, tested with the repository's suite
and its demonstration is run with and without it; kept in seeded/<id> if all is as required."""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/bugwt"
DEMO = '''#!/bin/bash
# exit 0: the demonstrated behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
printf 'module demo\\n\\ngo 1.23\\n\\nrequire github.com/cybergarage/go-sqlparser v0.0.0\\n\\nreplace github.com/cybergarage/go-sqlparser => %s\\n\\n' "$repo" > "$d/go.mod"
sed -n '/^require/,$p' go.mod >> "$d/go.mod"
cp go.sum "$d/"; cp "$here/demo.go.txt" "$d/main.go"
cd "$d" && go run @RACE@ . 2>"$d/err"; rc=$?; [ $rc -ne 0 ] && tail -20 "$d/err"
exit $rc
'''
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")


def sh(*a, cwd=W, **k):
    return subprocess.run(a, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def passed():
    r = sh("go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./...")
    log = "/tmp/bug.log"
    open(log, "w").write(r.stdout)
    sh("python3", "/opt/vp/results.py", "/tmp/bug.json", "gojson:" + log)
    return json.load(open("/tmp/bug.json"))


def main():
    spec = importlib.util.spec_from_file_location("b", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    key = next(k for k in ("passed", "stable", "tests", "pass") if k in base)
    shutil.rmtree(W, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", W, cwd="/tmp")
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        sh("git", "checkout", "-q", "--", ".")
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not match once:", f, s.count(old))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git", "diff").stdout
        d = os.path.join("/tmp/bugout", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.go.txt", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("@RACE@", "-race" if b.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("go", "build", "./...")
        if r.returncode:
            print(b["id"], "does not build", r.stderr[-500:])
            continue
        r1 = sh("bash", d + "/demo.sh")
        miss = set(base[key]) - set(passed()["passed"])
        sh("git", "checkout", "-q", "--", ".")
        r0 = sh("bash", d + "/demo.sh")
        if r0.returncode != 0 or r1.returncode == 0 or miss:
            print(b["id"], "NOT KEPT demo clean", r0.returncode, "patched", r1.returncode, "missing tests", len(miss), list(miss)[:2], r0.stdout[-400:], r1.stdout[-300:])
            continue
        dst = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b["id"], "kept;", r1.stdout.strip().splitlines()[:1])
    shutil.rmtree(W, ignore_errors=True)


main()
