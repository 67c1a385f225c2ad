#!/usr/bin/env python3
"""Development tool: run the property check of each planted bug on a scratch copy carrying the patch; print caught / missed."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedrun/repo"


def main():
    if not os.path.exists(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", SC], check=True)
    subprocess.run("git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=SC, check=True)
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=SC, check=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=SC)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY")
            continue
        r = subprocess.run(["python3", "check.py", prop, "--tier", "quick"], cwd=HERE, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=SC))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = r.returncode == 1 and any("property=" + prop + " " in l + " " for l in v)
        info = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith(("KNOWN", "VIOLATION"))]
        print("%-28s %-5s %-7s %s" % (i, prop, "CAUGHT" if ok else "MISSED", (info or ["?"])[0][:170]), flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=SC)


main()
