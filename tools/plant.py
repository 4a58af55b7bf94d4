#!/usr/bin/env python3
"""Makes the planted bugs (development tool).   plant.py DEFS.py [id ...]
DEFS.py defines BUGS: {id: dict(property, file, edits=[(old, new)], demo, needs, breaks[, libs, flags])}.
For each: apply the edits to a scratch copy of /repo (/tmp/plant/repo, see below), check that it builds, that the
existing tests pass, that the demo fails with it and passes without it; write /verif/seeded/<id>/.
/tmp/plant/vp holds copies of /opt/vp/{build,test}.sh with their paths pointing at the scratch copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys

S = "/tmp/plant/repo"
OUT = os.environ.get("PLANT_OUT", "/verif/seeded")
DEMO_SH = '''#!/bin/bash
# run in the repository: exits 0 if the library behaves, 1 if not
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 %s -w -Iinclude "$D/demo.cpp" -o "$T/demo" -lpthread %s || exit 1
timeout %d "$T/demo"
'''
HEAD = '''#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <cstdio>
#include <iomanip>
#include <new>
#include <sstream>
#include <thread>
#include <string>
static int bad = 0;
#define CHECK(x) do { if(!(x)) { std::printf("line %d: %s\\n", __LINE__, #x); bad = 1; } } while(0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    for name in want:
        b = bugs[name]
        d = os.path.join(OUT, name)
        sh(["git", "-C", S, "checkout", "-q", "--", "."])
        w = d + ".new"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        head = ("#define AESI_GMP_INTEGRATION\n" if "gmp" in b.get("libs", "") else "") + HEAD
        demo = b["demo"] if "int main" in b["demo"] else "int main() {\n" + b["demo"] + "\n    return bad;\n}\n"
        open(w + "/demo.cpp", "w").write(head + demo)
        open(w + "/demo.sh", "w").write(DEMO_SH % (b.get("flags", "-O1"), b.get("libs", ""), b.get("limit", 100)))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(w + "/meta.json", "w"), indent=1)
        p0 = sh(["bash", w + "/demo.sh"], cwd=S)
        if p0.returncode != 0:
            print(name, "DEMO FAILS ON CLEAN TREE", p0.stdout[-1500:])
            continue
        ok = True
        for e in b["edits"]:
            f = os.path.join(S, "include/AesiMultiprecision", b.get("file", "Aeu.h") if len(e) == 2 else e[2])
            t = open(f).read()
            if t.count(e[0]) != 1:
                print(name, "EDIT MATCHES %d TIMES: %s" % (t.count(e[0]), e[0][:80]))
                ok = False
                break
            open(f, "w").write(t.replace(e[0], e[1]))
        if not ok:
            continue
        diff = sh(["git", "-C", S, "diff"]).stdout
        open(w + "/patch.diff", "w").write(diff)
        # only original lines may be changed
        base = sh(["git", "-C", S, "show", "ea1b1f2:include/AesiMultiprecision/Aeu.h"]).stdout + sh(["git", "-C", S, "show", "ea1b1f2:include/AesiMultiprecision/Aesi.h"]).stdout
        baselines = {x.strip() for x in base.split("\n")}
        for l in diff.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() not in baselines:
                print(name, "note: not an original line:", l)
        p1 = sh(["bash", w + "/demo.sh"], cwd=S)
        if p1.returncode == 0:
            print(name, "DEMO PASSES WITH THE BUG")
            continue
        if "error:" in p1.stdout:
            print(name, "DOES NOT COMPILE", p1.stdout[-2000:])
            continue
        t = sh(["bash", "/tmp/plant/vp/test.sh", "/tmp/plant/o.json"], timeout=1500)
        o = json.load(open("/tmp/plant/o.json"))
        if o["failed"] or len(o["passed"]) < 94:
            print(name, "TESTS NOTICE IT: %d passed, failed: %s" % (len(o["passed"]), o["failed"][:5]))
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.rename(w, d)
        print(name, "planted:", p1.stdout.strip().split("\n")[0][:200], "exit", p1.returncode, flush=True)
    sh(["git", "-C", S, "checkout", "-q", "--", "."])


if __name__ == "__main__":
    main()
