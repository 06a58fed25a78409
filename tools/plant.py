#!/usr/bin/env python3
"""Planted bugs.
  plant.py start                          fresh scratch copy of /repo at /tmp/plant
  plant.py save ID PROP PKG DEMO.go       writes seeded/ID from /tmp/plant's diff ("needs" and "breaks" on stdin, one line each)
  plant.py verify ID...                   clean demo, patched build + suite + demo, then the property's check
  plant.py check [ID...]                  only the property's check on each patched tree
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = '''#!/bin/bash
# Run with cwd at the repository's root: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export TDEX_NETWORK=regtest TDEX_EXPLORER_ENDPOINT=http://127.0.0.1:3001 TDEX_LOG_LEVEL=5 TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD=1000
export TDEX_BASE_ASSET=5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export TDEX_DATA_DIR_PATH=$W/daemon TDEX_OPERATOR_DATADIR=$W/operator TMPDIR=$W/tmp
mkdir -p "$TMPDIR"
R="\\"$PWD/@PKG@/zz_demo_test.go\\":\\"$D/demo_test.go\\""
for f in $(cd "$D" && find lib -name '*.go' 2>/dev/null); do R="$R,\\"$PWD/internal/verif/${f#lib/}\\":\\"$D/$f\\""; done
echo "{\\"Replace\\":{$R}}" > "$W/overlay.json"
go test -vet=off -count=1 -timeout 240s -overlay "$W/overlay.json" -run '^TestDemo' @TARGET@
'''
NESTED = ("pkg/explorer", "pkg/securestore", "pkg/macaroons")
def sh(*a, **k):
    return subprocess.run(a, **k)
def git(*a, **k):
    return sh("git", "-C", "/repo", *a, **k)
def clean():
    return not git("status", "--porcelain", stdout=subprocess.PIPE, text=True).stdout.strip()
def demo(i):
    d = "/tmp/demo_x"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(S, i), d)
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(d, f))
    r = sh("bash", d + "/demo.sh", cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d)
    return r
def main():
    c = sys.argv[1]
    if c == "start":
        shutil.rmtree("/tmp/plant", ignore_errors=True)
        sh("git", "clone", "-q", "/repo", "/tmp/plant", check=True)
    elif c == "save":
        i, prop, pkg, src = sys.argv[2:6]
        needs, breaks = [l.strip() for l in sys.stdin.read().strip().splitlines()][:2]
        d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
        diff = sh("git", "-C", "/tmp/plant", "diff", stdout=subprocess.PIPE, text=True).stdout
        assert diff, "no change"
        open(d + "/patch.diff", "w").write(diff)
        sh("git", "-C", "/tmp/plant", "checkout", "-q", "--", ".")
        shutil.copy(src, d + "/demo_test.go")
        if pkg.startswith("internal/verif/"):
            for l in ("rapid", "txlib", "world"):
                shutil.copytree(os.path.join(V, "harness", l), d + "/lib/" + l, dirs_exist_ok=True,
                                ignore=lambda _, n: [x for x in n if x.endswith("_test.go")])
        t = "./" + pkg
        if pkg.startswith(NESTED):
            t = "github.com/tdex-network/tdex-daemon/" + pkg
        script = DEMO
        if pkg.startswith("internal/verif/"):
            i = DEMO.index("go test -vet")
            script = DEMO[:i] + """go test -c -vet=off -o "$W/demo.test" -overlay "$W/overlay.json" @TARGET@ || exit 3
cd "$W" && ./demo.test -test.timeout 240s -test.run '^TestDemo'
"""
        open(d + "/demo.sh", "w").write(script.replace("@PKG@", pkg).replace("@TARGET@", t))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    elif c in ("verify", "check"):
        ids = sys.argv[2:] or sorted(os.listdir(S))
        assert clean(), "/repo is dirty"
        for i in ids:
            prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
            msg = []
            if c == "verify":
                r = demo(i)
                msg.append("demo-clean:%d" % r.returncode)
                if r.returncode: print(r.stdout[-2500:])
            try:
                git("apply", os.path.join(S, i, "patch.diff"), check=True)
                if c == "verify":
                    r = sh("bash", V + "/tools/suite.sh", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    msg.append("suite:%d" % r.returncode)
                    if r.returncode: print(r.stdout[-1500:])
                    r = demo(i)
                    msg.append("demo-patched:%d" % r.returncode)
                    if "FAIL" not in r.stdout or "build failed" in r.stdout: print(r.stdout[-1500:])
                checks = json.load(open(V + "/checks.json"))
                if prop in checks:
                    r = sh("python3", V + "/run.py", prop, "quick", cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    open("/tmp/plant_%s.log" % i, "w").write(r.stdout)
                    msg.append("check:%d%s" % (r.returncode, " CAUGHT" if r.returncode == 1 else " MISSED"))
                    for l in r.stdout.splitlines():
                        if l.startswith("violation"): msg.append(l.split()[1])
                    shutil.rmtree(V + "/replays", ignore_errors=True)
            finally:
                git("checkout", "--", ".")
            print(i, prop, " ".join(msg), flush=True)
main()
