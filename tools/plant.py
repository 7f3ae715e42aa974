#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id>/ from a definition and confirms it.

plant.py <definitions.py> [id...]   builds patch.diff, demo.sh, demo.rs, meta.json in a scratch worktree,
and keeps the change only if it compiles, passes the stable tests, and the demonstration tells it apart.
"""
import json, os, shutil, subprocess, sys, importlib.util

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR="/tmp/plant/target")
DEMO = '''#!/bin/bash
# Run in a checkout of fix-rs: exit 0 if the behaviour holds, nonzero if it is broken.
# Compiles a scratch copy of the sources together with the test module beside this script.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf -- "$W"' EXIT
cp -r Cargo.toml src build resources "$W/" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$W/"
cp "$D/demo.rs" "$W/src/planted_demo.rs" || exit 2
printf '\\n#[cfg(test)]\\nmod planted_demo;\\n' >> "$W/src/main.rs"
cd "$W" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}"
timeout 280 cargo test --offline planted_demo:: -- --test-threads 1 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''

def sh(cmd, cwd=WT, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def fresh():
    if not os.path.isdir(WT):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD"])
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", WT)
    sh("git checkout -q --detach $(git -C /repo rev-parse HEAD); git checkout -q -- .; rm -f src/planted_demo.rs")

def stable_tests():
    want = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("cargo test --offline --no-fail-fast -- --test-threads 8 --skip session_schedule::schedule_tests::")
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]

def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    defs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(defs)
    only = sys.argv[2:]
    for b in defs.BUGS:
        if only and b["id"] not in only:
            continue
        fresh()
        bad = None
        for (f, old, new) in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "edit of %s matches %d times" % (f, s.count(old))
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "SKIPPED:", bad)
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, out = stable_tests()
        if not ok:
            print(b["id"], "DROPPED: tests fail or it does not compile\n", out)
            shutil.rmtree(d)
            continue
        e = dict(ENV, DEMO_TARGET="/tmp/plant/demo-target")
        r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=WT, env=e, capture_output=True, text=True)
        fresh()
        r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=WT, env=e, capture_output=True, text=True)
        ran = "1 passed" in r0.stdout
        if r0.returncode == 0 and r1.returncode != 0 and ran and "error: could not compile" not in r1.stdout:
            print(b["id"], "kept")
        else:
            print(b["id"], "DROPPED: demo unpatched", r0.returncode, "patched", r1.returncode)
            print(r0.stdout[-2500:] if r0.returncode else r1.stdout[-2500:])
            shutil.rmtree(d)

main()
