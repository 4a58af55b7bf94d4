#!/usr/bin/env python3
"""Runs the checks against the planted bugs (development tool; no check reads seeded/).
catch.py [-a] [id ...]   -a: run every check of the manifest against each bug, not only its property's.
Works on a scratch copy of /repo and of /verif under /tmp/catch."""
import json
import os
import shutil
import subprocess
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("CATCH_DIR", "/tmp/catch")


def main():
    args = sys.argv[1:]
    every = "-a" in args
    ids = [a for a in args if a != "-a"] or sorted(os.listdir(V + "/seeded"))
    man = json.load(open(V + "/MANIFEST.json"))
    props = [p["property"] for p in man["checks"]] if "checks" in man else [p["id"] for p in man["properties"]]
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    subprocess.run(["rsync", "-a", "--exclude", "_build", "/repo/", S + "/repo/"], check=False) if shutil.which("rsync") else shutil.copytree("/repo", S + "/repo", ignore=shutil.ignore_patterns("_build", "build"))
    shutil.copytree(V, S + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "build"))
    env = dict(os.environ, AESI_REPO=S + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    subprocess.run(["bash", S + "/verif/tools/setup.sh"], cwd=S + "/verif", env=env, stdout=subprocess.DEVNULL)
    for i in ids:
        d = V + "/seeded/" + i
        if not os.path.exists(d + "/patch.diff"):
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=S + "/repo", check=True)
        own = json.load(open(d + "/meta.json"))["property"]
        res = []
        for p in props if every else [own]:
            t = time.time()
            r = subprocess.run(["python3", "lib/check.py", p], cwd=S + "/verif", env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res.append("%s:%d%s %ds" % (p, r.returncode, "" if r.returncode != 1 or v else "(no line)", time.time() - t))
            if not every:
                res.append("; ".join(l for l in r.stdout.split("\n") if l.strip())[-300:])
        print(i, own, " ".join(res), flush=True)
    shutil.rmtree(S, ignore_errors=True)


main()
