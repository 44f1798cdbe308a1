#!/usr/bin/env python3
"""plant.py [ID..]: turns the bug descriptions of bugs.py into /verif/seeded/<id>/ after confirming, in a scratch copy of
/repo, that each builds, passes the stable tests, and is shown by its demonstration (and not without it)."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT", "/tmp/plant")
COPY = S + "/repo"

DEMO = """#!/bin/bash
# run in a checkout of the repository; builds main.rs against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
upon = { path = "$repo" }
serde = { version = "1.0.137", default-features = false, features = ["std"] }
[profile.dev]
debug = 0
incremental = false
END
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet || { cargo build --offline; exit 4; }
timeout 120 "$t/target/debug/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def setup():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(COPY):
        sh("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (COPY, COPY, COPY))


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests():
    r = sh("source /opt/vp/env.sh >/dev/null 2>&1; cd %s; export CARGO_TARGET_DIR=%s/target; timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/log 2>&1; python3 /opt/vp/results.py %s/out.json cargo:%s/log" % (COPY, S, S, S, S))
    if not os.path.exists(S + "/out.json"):
        return None, r.stdout
    o = json.load(open(S + "/out.json"))
    os.remove(S + "/out.json")
    return o, r.stdout


def demo(d):
    r = sh("cd %s && bash %s/demo.sh" % (COPY, d))
    return r.returncode, r.stdout


def plant(b):
    d = "%s/cand/%s" % (S, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (COPY, COPY))
    open(d + "/main.rs", "w").write(b["demo"])
    lock = open(VERIF + "/harness/Cargo.lock").read().replace('name = "harness"', 'name = "demo"')
    # packages are sorted by name in a lock file; cargo does not mind the order
    open(d + "/Cargo.lock", "w").write(lock)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    for f, old, new in b["edits"]:
        p = COPY + "/src/" + f
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), f, old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % COPY).stdout
    open(d + "/patch.diff", "w").write(diff)
    rc, out = demo(d)
    if rc == 4:
        return "does not build:\n" + out[-3000:]
    if rc == 0:
        return "the demonstration does not fail with the change:\n" + out[-1500:]
    o, log = tests()
    if o is None:
        return "tests gave no result: " + log[-2000:]
    passed = set(o["passed"]) if "passed" in o else {k for k, v in o.items() if v == "pass"}
    lost = stable() - passed
    if lost:
        return "breaks tests: %s" % sorted(lost)[:5]
    sh("git -C %s checkout -q -- ." % COPY)
    rc2, out2 = demo(d)
    if rc2 != 0:
        return "the demonstration fails on the unchanged tree:\n" + out2[-2500:]
    r = sh("git -C /repo apply --check %s/patch.diff" % d)
    if r.returncode:
        return r.stdout
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    dst = VERIF + "/seeded/" + b["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return None


if __name__ == "__main__":
    import bugs, bugs4, bugs5, bugs6, bugs7, bugs8
    setup()
    want = sys.argv[1:]
    for b in bugs.BUGS + bugs4.BUGS + bugs5.BUGS + bugs6.BUGS + bugs7.BUGS + bugs8.BUGS:
        if want and b["id"] not in want:
            continue
        if not want and os.path.isdir(VERIF + "/seeded/" + b["id"]):
            continue
        e = plant(b)
        print(b["id"], b["prop"], "planted" if not e else "REJECTED: " + e, flush=True)
