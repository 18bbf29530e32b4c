#!/usr/bin/env python3
"""Development tool (no check uses it): tries planted bugs in a scratch copy of the repository.

  plant.py DEFS.py [ID...]     for each definition in DEFS.py (a list BUGS of dicts): apply the edits to the
                               scratch copy, build, run the tests, run the demonstration with and without
                               the change, run the property's check against the scratch copy; a bug that is
                               confirmed is written to /verif/seeded/<id>/ whether or not it was caught.
Scratch area: $PLANT (default /tmp/plant) with repo/, verif/, vp/ made by `plant.py --init`.
"""
import json, os, re, shutil, subprocess, sys, time
P = os.environ.get("PLANT", "/tmp/plant")
REPO, VERIF = P + "/repo", P + "/verif"
ENV = dict(os.environ, PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"], HOME="/root",
           RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

HEAD = '''#!/bin/bash
# exit 0: behaves as it should; run in the repository's top folder
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true HOME=/root
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
'''
RS = HEAD + '''cargo build --offline --lib >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
rustc --edition 2018 -A warnings -o "$T/demo" "$HERE/demo.rs" \\
    --extern fbas_analyzer="$PWD/target/debug/libfbas_analyzer.rlib" -L "$PWD/target/debug/deps" || exit 2
cd "$T" && timeout 60 ./demo
'''
SH = HEAD + '''cargo build --offline --bins >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
BIN="$PWD/target/debug"
cd "$T" || exit 2
'''


def sh(cmd, cwd=REPO, timeout=900, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def init():
    os.makedirs(P, exist_ok=True)
    if not os.path.exists(REPO):
        sh("cp -a /repo %s" % REPO, "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD")
    os.makedirs(P + "/vp", exist_ok=True)
    for f in ("build.sh", "test.sh", "env.sh", "results.py", "functional.py"):
        s = open("/opt/vp/" + f).read().replace("cd /repo", "cd " + REPO).replace("/opt/vp/env.sh", P + "/vp/env.sh")
        s = s.replace("/opt/vp/logs", P + "/vp/logs").replace('"/repo', '"' + REPO).replace("'/repo", "'" + REPO)
        s = s.replace("/opt/vp/functional.py", P + "/vp/functional.py").replace("/opt/vp/results.py", P + "/vp/results.py")
        open(P + "/vp/" + f, "w").write(s)


def sync_verif():
    os.makedirs(VERIF, exist_ok=True)
    for d in ("bin", "spec", "harness/src"):
        shutil.rmtree(VERIF + "/" + d, ignore_errors=True)
        shutil.copytree("/verif/" + d, VERIF + "/" + d)
    for f in ("known_findings.txt", "harness/Cargo.toml", "harness/Cargo.lock"):
        shutil.copy("/verif/" + f, VERIF + "/" + f)
    for f in ("bin/run_check.py", "harness/Cargo.toml"):
        s = open(VERIF + "/" + f).read()
        s = s.replace('"/repo"', '"%s"' % REPO)
        open(VERIF + "/" + f, "w").write(s)


def check(props, seed="1", tier="quick"):
    res = []
    for p in props:
        rc, o = sh("python3 bin/run_check.py " + p, VERIF, 3000, dict(ENV, VERIF_SEED=seed, VERIF_TIER=tier))
        res.append((p, rc, o))
    return res


def demo(d):
    return sh("bash %s/demo.sh" % d, timeout=300)


def one(b, only_check=False):
    t0 = time.time()
    bid = b["id"]
    sh("git checkout -q -- .")
    for f, old, new in b["edits"]:
        p = REPO + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff")
    d = P + "/out/" + bid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if "rs" in b:
        open(d + "/demo.rs", "w").write(b["rs"])
        open(d + "/demo.sh", "w").write(RS)
    else:
        open(d + "/demo.sh", "w").write(SH + b["sh"])
    for n, c in b.get("files", {}).items():
        open(d + "/" + n, "w").write(c)
    open(d + "/meta.json", "w").write(json.dumps(dict(
        property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), indent=1) + "\n")
    rc, o = sh("cargo build --offline --bins --lib")
    if rc:
        return "does not build:\n" + o[-1500:]
    rc1, o1 = demo(d)
    if rc1 == 0 or rc1 == 2:
        return "demo does not fail with the patch (%d): %s" % (rc1, o1[-800:])
    sh("bash %s/vp/build.sh" % P)
    sh("bash %s/vp/test.sh %s/out.json" % (P, P))
    r = json.load(open(P + "/out.json"))
    lost = sorted(STABLE - set(r["passed"]))
    if lost:
        return "tests fail: " + " ".join(lost[:8])
    res = check(b.get("checks", [b["property"]]))
    sh("git checkout -q -- .")
    rc0, o0 = demo(d)
    if rc0:
        return "demo fails on the clean tree (%d): %s" % (rc0, o0[-800:])
    dst = "/verif/seeded/" + bid
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return "valid; " + "; ".join("%s %s" % (p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d" % rc)) for p, rc, _ in res) + \
        " (%.0f s)\n     %s" % (time.time() - t0, " | ".join(
            (o.strip().splitlines() or [""])[0][:260] for _, rc, o in res))


def main():
    if sys.argv[1] == "--init":
        return init()
    if sys.argv[1] == "--recheck":  # run the checks again against kept bugs
        sync_verif()
        for bid in sys.argv[2:] or sorted(os.listdir("/verif/seeded")):
            d = "/verif/seeded/" + bid
            m = json.load(open(d + "/meta.json"))
            sh("git checkout -q -- .")
            rc, o = sh("git apply %s/patch.diff" % d)
            if rc:
                print(bid, "does not apply", o)
                continue
            (p, rc, o), = check([m["property"]])
            print(bid, p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d %s" % (rc, o[-500:])), flush=True)
            sh("git checkout -q -- .")
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sync_verif()
    ids = sys.argv[2:]
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        try:
            r = one(b)
        except Exception as e:
            r = "exception %r" % e
        sh("git checkout -q -- .")
        print(b["id"], "->", r, flush=True)


main()
