#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  run.py C01 [quick|thorough]     the check (VERIF_SEED, VERIF_TIER from the environment)
  run.py --replay FILE            re-runs a recorded failure
  run.py --build                  compiles every check package (setup_cmd)

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=.. replay=..":
broken. Anything else: the check could not decide.
"""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
INPKG = os.path.join(HARNESS, "_inpkg")

# property -> packages holding its checks (harness/<pkg>, or "repo:<dir>" for
# in-package checks under harness/_inpkg/<dir>); a package's tests for property
# C01 are those named TestC01*.
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

QUICK_LIMIT, THOROUGH_LIMIT = 780, 6 * 3600


def log(*a):
    print(*a, flush=True)


def goenv(scratch):
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOTELEMETRY="off",
               CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOTMPDIR=scratch, GONOSUMDB="*", GOFLAGS_EXTRA="")
    env.setdefault("HOME", "/root")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def prepare(scratch):
    """overlay.json and a copy of go.mod/go.sum."""
    rep = {}
    for root, dirs, files in os.walk(HARNESS):
        rel = os.path.relpath(root, HARNESS)
        for f in files:
            if not f.endswith(".go"):
                continue
            src = os.path.join(root, f)
            if rel == "_inpkg" or rel.startswith("_inpkg" + os.sep):
                dst = os.path.join(REPO, os.path.relpath(root, INPKG), f)
            else:
                dst = os.path.join(REPO, "internal", "verif", rel, f)
            rep[dst] = src
    with open(os.path.join(scratch, "overlay.json"), "w") as fh:
        json.dump({"Replace": rep}, fh)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(scratch, f))
    shared_contexts(scratch)
    cheap_scrypt(scratch)


def cheap_scrypt(scratch):
    """A key derivation costs 3 s and 1 GB with the parameters of the wallet:
    build against a copy of the library that caps the cost, unless
    VERIF_REAL_SCRYPT is set at run time."""
    modfile = os.path.join(scratch, "go.mod")
    mod = open(modfile).read()
    m = re.search(r"golang.org/x/crypto (\S+)", mod)
    src = "/root/go/pkg/mod/golang.org/x/crypto@" + (m.group(1) if m else "")
    if not m or not os.path.isdir(src) or "x/crypto =>" in mod:
        return
    dst = os.path.join(scratch, "crypto")
    f = os.path.join(dst, "scrypt", "scrypt.go")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    subprocess.run(["chmod", "-R", "u+w", dst])
    text = open(f).read()
    new = text.replace("\txy := make([]uint32, 64*r)\n",
                       "\tif N > 1<<8 && os.Getenv(\"VERIF_REAL_SCRYPT\") == \"\" {\n\t\tN = 1 << 8\n\t}\n\txy := make([]uint32, 64*r)\n")
    new = new.replace("import (\n", "import (\n\t\"os\"\n", 1)
    if "VERIF_REAL_SCRYPT" not in new:
        return
    open(f, "w").write(new)
    with open(modfile, "a") as fh:
        fh.write("\nreplace golang.org/x/crypto => %s\n" % dst)


def shared_contexts(scratch):
    """go-elements makes a new secp256k1 context (about 30 ms) for each operation.
    It is a third-party library, not the code under test: build against a copy
    that keeps one context."""
    modfile = os.path.join(scratch, "go.mod")
    mod = open(modfile).read()
    m = re.search(r"github.com/vulpemventures/go-elements (\S+)", mod)
    src = "/root/go/pkg/mod/github.com/vulpemventures/go-elements@" + (m.group(1) if m else "")
    if not m or not os.path.isdir(src) or "go-elements =>" in mod:
        return
    dst = os.path.join(scratch, "go-elements")
    f = os.path.join(dst, "confidential", "confidential.go")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    subprocess.run(["chmod", "-R", "u+w", dst])
    text = open(f).read()
    new = text.replace("ctx, _ := secp256k1.ContextCreate(secp256k1.ContextBoth)\n\tdefer secp256k1.ContextDestroy(ctx)\n",
                       "ctx := verifCtx\n\t_ = ctx\n")
    if new == text or "ContextDestroy" in new:
        return
    open(f, "w").write(new + "\nvar verifCtx, _ = secp256k1.ContextCreate(secp256k1.ContextBoth)\n")
    with open(modfile, "a") as fh:
        fh.write("\nreplace github.com/vulpemventures/go-elements => %s\n" % dst)


def pkgpath(pkg):
    if pkg.startswith("repo:"):
        return "./" + pkg[5:]
    return "./internal/verif/" + pkg


def build(scratch, pkg, env):
    out = os.path.join(scratch, pkg.replace("/", "_").replace(":", "_") + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-trimpath", "-overlay", os.path.join(scratch, "overlay.json"),
           "-modfile", os.path.join(scratch, "go.mod"), "-o", out, pkgpath(pkg)]
    for attempt in (1, 2):
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and os.path.exists(out):
            return out
    log(r.stdout[-6000:])
    log("check error: cannot build %s" % pkg)
    return None


def testenv(env, d, stats, seed, tier):
    e = dict(env)
    e.update(TDEX_NETWORK="regtest", TDEX_EXPLORER_ENDPOINT="http://127.0.0.1:3001", TDEX_LOG_LEVEL="5",
             TDEX_BASE_ASSET="5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225",
             TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD="1000",
             TDEX_DATA_DIR_PATH=os.path.join(d, "daemon"), TDEX_OPERATOR_DATADIR=os.path.join(d, "operator"),
             TMPDIR=os.path.join(d, "tmp"), HOME=os.path.join(d, "home"),
             VERIF_STATS=stats, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_KNOWN=os.path.join(VERIF, "known_findings.txt"))
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        e.pop(k, None)
    for k in ("tmp", "home", "run"):
        os.makedirs(os.path.join(d, k), exist_ok=True)
    return e


def run_one(scratch, env, binary, test, seed, tier, limit, failfile=None, shard="0/1"):
    d = os.path.join(scratch, "run_" + test + "_" + shard.replace("/", "of"))
    os.makedirs(d, exist_ok=True)
    stats = os.path.join(d, "stats.json")
    e = testenv(env, d, stats, seed, tier)
    e["VERIF_SHARD"] = shard
    args = [binary, "-test.run", "^%s$" % test, "-test.count=1", "-test.timeout=0"]
    if failfile:
        args.append("-rapid.failfile=" + failfile)
        e["VERIF_REPLAY"] = "1"
    outp = os.path.join(d, "output.txt")
    t0 = time.time()
    with open(outp, "wb") as fh:
        p = subprocess.Popen(args, cwd=os.path.join(d, "run"), env=e, stdout=fh, stderr=subprocess.STDOUT,
                             start_new_session=True)
        timeout = False
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out = open(outp, errors="replace").read()
    st = {}
    if os.path.exists(stats):
        st = json.load(open(stats))
    fails = sorted(glob.glob(os.path.join(d, "run", "testdata", "rapid", "**", "*.fail"), recursive=True))
    return dict(test=test, rc=p.returncode, timeout=timeout, out=out, stats=st, fails=fails, wall=time.time() - t0, dir=d)


def verdict(r):
    if r["timeout"]:
        return "error"
    if "[verif-error]" in r["out"]:
        return "error"
    if r["rc"] == 0:
        return "error" if "no tests to run" in r["out"] else "ok"
    if re.search(r"out of memory|cannot allocate memory|no space left on device|too many open files", r["out"]):
        return "error"
    if r["rc"] == 1 and "--- FAIL" in r["out"]:
        return "violation"
    if r["rc"] == 2 and re.search(r"^(panic:|fatal error:)", r["out"], re.M):
        return "violation"
    return "error"


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        pkgs = sorted({p for c in CHECKS.values() for p in c["packages"]})
        scratch = tempfile.mkdtemp(prefix="verif-")
        try:
            prepare(scratch)
            env = goenv(scratch)
            ok = all([build(scratch, p, env) for p in pkgs])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0 if ok else 2
    replay = None
    if args and args[0] == "--replay":
        replay = json.load(open(args[1]))
        prop, tier, seed = replay["property"], replay["tier"], replay["seed"]
    else:
        prop = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    limit = QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT
    conf = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return check(prop, tier, seed, limit, conf, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, limit, conf, scratch, t0, replay):
    prepare(scratch)
    env = goenv(scratch)
    jobs = []
    for pkg in conf["packages"]:
        if replay and replay["package"] != pkg:
            continue
        b = build(scratch, pkg, env)
        if not b:
            return 2
        le = testenv(env, os.path.join(scratch, "list"), "", seed, tier)
        le.pop("VERIF_STATS")
        l = subprocess.run([b, "-test.list", "^Test" + prop], cwd=scratch, env=le, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        tests = [x for x in l.stdout.split() if x.startswith("Test" + prop)]
        if replay:
            tests = [replay["test"]]
        for t in tests:
            n = conf.get("shards", {}).get(t, 1)
            shards = ["%d/%d" % (i, n) for i in range(n)]
            if replay:
                shards = [replay.get("shard", "0/1")]
            jobs += [(pkg, b, t, x) for x in shards]
    if not jobs:
        log("check error: no tests for", prop)
        return 2
    built = time.time() - t0
    res = []
    ff = None
    if replay and replay.get("failfile"):
        ff = os.path.join(os.path.dirname(os.path.abspath(sys.argv[2])), replay["failfile"])
    left = max(60, limit - built)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "6"))) as ex:
        fs = [(pkg, x, ex.submit(run_one, scratch, env, b, t, seed, tier, left, ff, x)) for pkg, b, t, x in jobs]
        for pkg, x, f in fs:
            r = f.result()
            r["pkg"], r["shard"] = pkg, x
            res.append(r)
    code, viol, errs = 0, [], []
    known = []
    for r in res:
        v = verdict(r)
        for line in r["out"].splitlines():
            if line.startswith("KNOWN-FINDING: "):
                known.append(line)
        if v == "violation":
            viol.append(r)
        elif v == "error":
            errs.append(r)
        log("%-9s %s (%.1fs, %d cases)" % (v, r["test"], r["wall"], sum(s["evaluations"] for s in r["stats"].values())))
    for line in dict.fromkeys(known):
        log(line)
    ev, nt, rules, samples, sub, keys = 0, 0, [], [], {}, {}
    for r in res:
        for name, s in sorted(r["stats"].items()):
            x = sub.get(name)
            if x is None:
                x = sub[name] = {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}}
                if s["rule"]:
                    rules.append("%s: %s" % (name, s["rule"]))
                samples += ["%s: %s" % (name, y) for y in (s["samples"] or [])][:4]
            x["evaluations"] += s["evaluations"]
            seen = keys.setdefault(name, set())
            ks = s.get("keys") or []
            x["distinct_nontrivial"] += s["distinct_nontrivial"] - len(seen & set(ks))
            seen |= set(ks)
            for c, n in s["classes"].items():
                x["classes"][c] = x["classes"].get(c, 0) + n
    ev = sum(x["evaluations"] for x in sub.values())
    nt = sum(x["distinct_nontrivial"] for x in sub.values())
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                       "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": " | ".join(rules),
                                    "samples": samples, "by_check": sub, "known_findings": list(dict.fromkeys(known))},
                       "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                       "violations": len(viol)}, fh, indent=1)
    for r in viol:
        if replay:
            log(r["out"][-8000:])
            log("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(sys.argv[2])))
            continue
        rd = os.path.join(VERIF, "replays", "%s-%s-seed%d-%s" % (prop, r["test"], seed, r["shard"].replace("/", "of")))
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        with open(os.path.join(rd, "output.txt"), "w") as fh:
            fh.write(r["out"])
        rec = {"property": prop, "package": r["pkg"], "test": r["test"], "seed": seed, "tier": tier, "shard": r["shard"]}
        if r["fails"]:
            shutil.copy(r["fails"][-1], os.path.join(rd, "minimal.fail"))
            rec["failfile"] = "minimal.fail"
        with open(os.path.join(rd, "replay.json"), "w") as fh:
            json.dump(rec, fh, indent=1)
        log(r["out"][-5000:])
        log("VIOLATION property=%s replay=%s" % (prop, os.path.join(rd, "replay.json")))
    if viol:
        return 1
    for r in errs:
        log("check error in %s: rc=%s timeout=%s" % (r["test"], r["rc"], r["timeout"]))
        log(r["out"][-6000:])
    return 2 if errs else 0


if __name__ == "__main__":
    sys.exit(main())
