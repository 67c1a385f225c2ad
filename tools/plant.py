#!/usr/bin/env python3
"""Development tool: plant a bug in a scratch copy of /repo, confirm it (builds, baseline tests pass, demo separates)
and record it under seeded/<id>/.

usage: plant.py BUGS.py [id ...]   BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
DEMO = """#!/bin/bash
# builds demo.rs against the library just built in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} PATH=/root/.cargo/bin:$PATH
rustc --edition 2021 -A warnings "$here/demo.rs" --extern qcd_sme=target/debug/deps/libqcd_sme.rlib \\
    --extern num=$(ls target/debug/deps/libnum-*.rlib | head -1) \\
    -L dependency=target/debug/deps -o "$tmp/demo" || exit 3
"$tmp/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=SC)
    ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    return ok, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.exists(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", SC], check=True)
    sh("git checkout -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SC)
    base, out = tests()
    print("baseline: %d tests pass" % len(base))
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        if not want and os.path.exists(os.path.join(d, "patch.diff")):
            continue
        sh("git checkout -- .", cwd=SC)
        os.makedirs("/tmp/plant/demo", exist_ok=True)
        for f in os.listdir("/tmp/plant/demo"):
            os.unlink("/tmp/plant/demo/" + f)
        if "demo" in b:
            open("/tmp/plant/demo/demo.rs", "w").write(b["demo"])
        open("/tmp/plant/demo/demo.sh", "w").write(b.get("sh", DEMO))
        os.chmod("/tmp/plant/demo/demo.sh", 0o755)
        for n, x in b.get("files", {}).items():
            open("/tmp/plant/demo/" + n, "w").write(x)
        sh("cargo test --workspace --no-run --offline", cwd=SC)
        r0 = sh("bash /tmp/plant/demo/demo.sh", cwd=SC)
        if r0.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN", r0.returncode, r0.stdout[-1500:])
            continue
        good = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                k = b.get("nth", {}).get(f)
                if k is None or s.count(old) <= k:
                    print(b["id"], "EDIT MATCHES %d TIMES in %s" % (s.count(old), f))
                    good = False
                    break
                parts = s.split(old)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        if not good:
            continue
        diff = sh("git diff", cwd=SC).stdout
        ok, out = tests()
        miss = base - ok
        if miss:
            tail = [l for l in out.splitlines() if l.startswith("error")][:5]
            print(b["id"], "TESTS FAIL", len(miss), sorted(miss)[:4], tail)
            continue
        r1 = sh("bash /tmp/plant/demo/demo.sh", cwd=SC)
        if r1.returncode == 0 or r1.returncode == 3:
            print(b["id"], "DEMO DOES NOT FAIL WITH PATCH", r1.returncode, r1.stdout[-600:])
            continue
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f in os.listdir("/tmp/plant/demo"):
            shutil.copy("/tmp/plant/demo/" + f, d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(b["id"], "recorded:", r1.stdout.strip()[-100:])
    sh("git checkout -- .", cwd=SC)


main()
