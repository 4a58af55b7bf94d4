#!/usr/bin/env python3
"""check.py C07 [--replay FILE]     decide one property against /repo's working tree.

1. model    TLC checks the property on the small-width model (spec/AesiModel.tla)
2. traces   the driver executes generated calls on the real code; TLC decides whether the
            recorded log is a behaviour of the specification (spec/AesiTrace.tla)
3. replay   TLC generates behaviours of the specification (spec/AesiGen.tla); the driver makes
            the real code do the same, and what it did is compared with the prediction

exit 0: held on everything explored; exit 1 + "VIOLATION property=..." line; exit 2: error."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AESI_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import gen as G  # noqa: E402
import plans  # noqa: E402
import gentest as T  # noqa: E402

BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ building
def classes(work):
    out = os.path.join(work, "classes")
    os.makedirs(out, exist_ok=True)
    p = run(["javac", "-nowarn", "-cp", JARS, "-d", out, os.path.join(VERIF, "java/aesi/BigNatOverrides.java")])
    if p.returncode:
        raise CheckError("javac failed:\n" + p.stdout)
    return out


class CompileError(CheckError):
    pass


def compile_cpp(work, name, defs, src=None, extra=()):
    exe = os.path.join(work, name)
    gmp = any(d.startswith("F_GMP") for d in defs)
    extra = list(extra)
    cxx = extra.pop(0) if extra and extra[0].endswith("++") else "g++"
    if not any(x.startswith("-O") for x in extra):
        extra.insert(0, "-O1")
    cmd = [cxx, "-std=gnu++20", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"] + ["-D" + d for d in defs] + extra + [
        "-I" + os.path.join(VERIF, "driver"), "-I" + os.path.join(REPO, "include"),
        src or os.path.join(VERIF, "driver/main.cpp"), "-o", exe, "-lpthread"] + (["-lgmpxx", "-lgmp"] if gmp else [])
    p = run(cmd)
    if p.returncode and cxx == "clang++":
        # the repository is built with g++; what only clang++ refuses is not this check's business
        log("NOTE %s does not compile with clang++, using g++" % name)
        p = run(["g++"] + cmd[1:])
    if p.returncode:
        raise CompileError("compiling %s failed:\n%s" % (name, p.stdout[-3000:]))
    return exe


# ------------------------------------------------------------------ executing
def chunks_of(lines):
    """the script as a list of chunks (lists of lines); a 'shared' line goes with the next init"""
    out, cur = [], None
    pend = []
    for l in lines:
        if l.startswith("shared"):
            pend.append(l)
            continue
        if l.startswith("init"):
            cur = pend + [l]
            pend = []
            out.append(cur)
        else:
            cur.append(l)
    return out


HEX = frozenset("0123456789abcdef")


def wellformed(line):
    """whether a line of the driver's log is one it can have written (the code under test may have written over it)"""
    if not line.isascii():
        return False
    try:
        e = json.loads(line)
        return (isinstance(e, dict) and isinstance(e["o"], str)
                and all(type(w[0]) is int and type(w[1]) is int and isinstance(w[2], str) and HEX.issuperset(w[2]) and len(w) == 3
                        for w in e.get("w", ())))
    except (ValueError, KeyError, TypeError, IndexError):
        return False


def execute(exe, script, work, tag):
    """run a script; after a crash go on with the chunk that follows.  Returns log lines."""
    chunks = chunks_of(script)
    loglines = []
    start, crashes = 0, 0
    while start < len(chunks):
        sp, lp = os.path.join(work, tag + ".script"), os.path.join(work, tag + ".log")
        flat = [l for c in chunks[start:] for l in c]
        with open(sp, "w") as f:
            f.write("\n".join(flat) + "\n")
        try:
            p = run([exe, sp, lp], timeout=300, env=dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:allocator_may_return_null=1"))
        except subprocess.TimeoutExpired:
            p = None
        with open(lp, errors="replace") as f:
            part = f.read().split("\n")
        part = [x for x in part if x]
        wild = next((i for i, x in enumerate(part) if not wellformed(x)), len(part))
        if wild < len(part) - 1 or wild < len(part) and not part[wild].isascii():
            # the code under test has written over the driver's memory
            part = part[:wild] + ['{"o":"crash","sig":0,"line":0,"w":[]}']
            if p is not None and p.returncode in (0, 2):
                return loglines + part
        if p is None:        # slow (every single call has a time limit of its own): use what there is
            while part and not wellformed(part[-1]):
                part.pop()
            loglines += part
            log("NOTE driver %s stopped after 300 s" % tag)
            break
        if p.returncode == 0:
            loglines += part
            break
        if p.returncode == 2:
            raise CheckError("driver error: %s" % p.stdout[-2000:])
        # a crash the handler saw (3) or a signal it could not report
        done = sum(1 for x in part if x.startswith('{"o":"init"'))
        if not part or not part[-1].startswith('{"o":"crash"'):
            while part and not wellformed(part[-1]):
                part.pop()
            if not part:
                raise CheckError("driver %s ended with %s: %s" % (exe, p.returncode, p.stdout[-500:]))
            part.append('{"o":"crash","sig":%d,"line":0,"w":[]}' % p.returncode)
        loglines += part
        start += max(1, done)
        crashes += 4 if '"sig":27,' in part[-1] else 1      # a call that does not return
        if crashes >= 6:
            break
    return loglines


def validate(cls, work, tag, loglines, spec, cfg):
    """TLC on one log.  Returns (rejected line indices (0-based), generated, distinct)."""
    lp = os.path.join(work, tag + ".ndjson")
    with open(lp, "w") as f:
        f.write("\n".join(loglines) + "\n")
    meta = os.path.join(work, tag + ".meta")
    env = dict(os.environ, TRACE=lp, TLC_JAVA_OPTS="-Djava.io.tmpdir=" + work + " -Xss16m -Xmx3g -XX:ParallelGCThreads=2 -XX:CICompilerCount=2")
    p = run(["timeout", "840", os.path.join(VERIF, "lib/tlc.sh"), cls, meta, "-workers", "1", "-config", cfg, spec],
            cwd=os.path.join(VERIF, "spec"), env=env)
    out = p.stdout
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"PRECONDITION[\",\s]*(\d+)", out)
    if m and "Assert" in out or m and "evaluating" in out:
        raise CheckError("generated call outside the domain: %s" % loglines[int(m.group(1)) - 1])
    rejects = [int(x) - 1 for x in re.findall(r'<<"REJECT", (\d+)>>', out)]
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if p.returncode != 0 or not m or "No error has been found" not in out:
        raise CheckError("TLC failed on %s (%d):\n%s" % (tag, p.returncode, out[-4000:]))
    g, d = (int(x.replace(",", "")) for x in m.groups())
    inits = sum(1 for x in loglines if x.startswith('{"o":"init"'))
    # every event is a state, unless an earlier one of its chunk was rejected
    if not rejects and "SKIP" not in out and d != len(loglines):
        raise CheckError("TLC visited %d states for %d log lines (%d chunks)" % (d, len(loglines), inits))
    return rejects, g, d


def shard(jobs, k):
    """split (tag, loglines) into k lists of whole chunks; returns [(lines, [(tag, index)])]"""
    chunks = []
    for tag, lines in jobs:
        cur = None
        for i, l in enumerate(lines):
            if l.startswith('{"o":"init"'):
                cur = []
                chunks.append(cur)
            cur.append((l, tag, i))
    total = sum(len(c) for c in chunks)
    k = max(1, min(k, total // 1500))
    bins = [[] for _ in range(k)]
    weight = [0] * k
    cost = [sum(len(l) + 200 for l, _, _ in c) for c in chunks]
    for c, w in sorted(zip(chunks, cost), key=lambda x: -x[1]):
        j = weight.index(min(weight))
        bins[j] += c
        weight[j] += w
    return [([x[0] for x in b], [(x[1], x[2]) for x in b]) for b in bins if b]


# ------------------------------------------------------------------ model slice
def model_check(cls, work, prop, tier):
    """the property on the small-width model; returns dict with counts"""
    runs = plans.MODEL.get(prop, {}).get(tier) or plans.MODEL.get(prop, {}).get("quick") or []
    res = {"states": 0, "transitions": 0, "runs": []}

    def one(r):
        name, text = r
        cfgp = os.path.join(work, name + ".cfg")
        with open(cfgp, "w") as f:
            f.write(text["cfg"])
        env = dict(os.environ, TLC_JAVA_OPTS="-Djava.io.tmpdir=" + work + " -Xss16m -Xmx4g -XX:ParallelGCThreads=2")
        p = run(["timeout", "840", os.path.join(VERIF, "lib/tlc.sh"), cls, os.path.join(work, name + ".meta"), "-workers",
                 str(text.get("workers", 2)), "-config", cfgp, text["spec"]], cwd=os.path.join(VERIF, "spec"), env=env)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", p.stdout)
        if p.returncode != 0 or not m or "No error has been found" not in p.stdout:
            raise CheckError("model %s failed:\n%s" % (name, p.stdout[-3000:]))
        g, d = (int(x.replace(",", "")) for x in m.groups())
        return name, g, d
    with cf.ThreadPoolExecutor(4) as ex:
        for name, g, d in ex.map(one, runs):
            res["states"] += d
            res["transitions"] += g
            res["runs"].append({"model": name, "states": d, "transitions": g})
    return res


# ------------------------------------------------------------------ behaviours generated by TLC
def spec_behaviours(cls, work, prop, p):
    def run_tlc(args, tag):
        env = dict(os.environ, TLC_JAVA_OPTS="-Djava.io.tmpdir=" + work + " -Xss16m -Xmx2g -XX:ParallelGCThreads=2 -XX:CICompilerCount=2")
        meta = os.path.join(work, tag + ".meta")
        q = run(["timeout", "840", os.path.join(VERIF, "lib/tlc.sh"), cls, meta] + args, cwd=os.path.join(VERIF, "spec"), env=env)
        shutil.rmtree(meta, ignore_errors=True)
        return q.stdout
    tag, got, out = T.generate(run_tlc, work, prop, p, SEED)
    if got is None:
        k = out.find("Error:")
        raise CheckError("TLC failed on %s:\n%s" % (tag, out[max(0, k):k + 3000] or out[-3000:]))
    recs, trans, states = got
    lines, src = T.script(recs, raw=prop == "C11")
    return {"tag": tag, "N": p[0], "M": p[1], "lines": lines, "src": src, "calls": sum(1 for x in src if x), "transitions": trans, "states": states}


# ------------------------------------------------------------------ findings
# Operands are put in place with a constructor, setBlock, inverse and assignment.  If that goes wrong, it is these properties
# that fail; for the others the execution has no meaning.
LOADS = {"C11", "C15", "C22", "C23", "C24"}


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def write_replay(prop, n, rec):
    d = os.path.join(VERIF, "build", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def replay(path):
    rec = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay.", dir=BUILD)
    try:
        if rec.get("kind") == "constexpr":
            log("constant evaluation: run the check itself again")
            return 2
        exe = compile_cpp(work, "driver", rec["defs"], None, rec.get("extra", ()))
        ll = execute(exe, rec["script"], work, "r")
        rj, _, _ = validate(classes(work), work, "r", ll, rec["spec"], rec["cfg"])
        for i in rj:
            log("REJECTED", ll[i])
        if rj:
            log("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1 if rj else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------------ the check
def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + ".", dir=BUILD)
    try:
        return check(prop, work, t0)
    except CheckError as e:
        log("ERROR", prop, e)
        return 2
    finally:
        if not os.environ.get("AESI_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def check(prop, work, t0):
    plan = plans.PLANS[prop]
    cls = classes(work)
    jobs = plan["jobs"](TIER, SEED)       # [{tag, N, M, defs, script()}]
    timing = {}
    with cf.ThreadPoolExecutor(8) as tp:
        model = tp.submit(model_check, cls, work, prop, TIER)
        exes, scripts = {}, {}
        behaviours = [tp.submit(spec_behaviours, cls, work, prop, p) for p in T.plan(prop, TIER)]
        # compile and generate
        comp = {}
        for j in jobs:
            key = hashlib.sha1(repr((j["defs"], j.get("extra"))).encode()).hexdigest()[:12]
            j["key"] = key
            if key not in comp:
                comp[key] = tp.submit(compile_cpp, work, "d-" + key, j["defs"], None, j.get("extra", ()))
        with cf.ProcessPoolExecutor(4) as pp:
            gens = [pp.submit(plans.generate, j["gen"], j["N"], j["M"], j["seed"], j["scale"]) for j in jobs]
            for j, g in zip(jobs, gens):
                scripts[j["tag"]] = g.result()
        for j in jobs:
            exes[j["tag"]] = comp[j["key"]].result()
        timing["build"] = time.time() - t0
        logs = dict(zip([j["tag"] for j in jobs],
                        tp.map(lambda j: execute(exes[j["tag"]], scripts[j["tag"]], work, j["tag"]), jobs)))
        gens = [b.result() for b in behaviours]
        plain = {(j["N"], j["M"]): j for j in jobs if not j.get("extra")}
        for b in gens:      # the real code in the places of the specification's behaviours
            w = (b["N"], b["M"])
            if w not in plain:
                tag, defs = "gen-%d-%d" % w, ["N=%d" % w[0], "M=%d" % w[1], "NDEBUG"] + plans.FLAGS[prop]
                plain[w] = {"tag": tag, "defs": defs}
                exes[tag] = compile_cpp(work, "d-" + tag, defs)
            b["defs"], b["exe"] = plain[w]["defs"], exes[plain[w]["tag"]]
        genlogs = list(tp.map(lambda b: execute(b["exe"], b["lines"], work, b["tag"]), gens))
        timing["behaviours"] = time.time() - t0
        genbad, gencalls = [], 0
        for b, ll in zip(gens, genlogs):
            if prop in T.VALIDATED:
                logs[b["tag"]] = ll
                scripts[b["tag"]] = b["lines"]
                jobs.append({"tag": b["tag"], "defs": b["defs"]})
                gencalls += b["calls"]
            else:
                n, bad = T.compare(b["lines"], b["src"], ll)
                gencalls += n
                genbad += [(b, k, r, e) for k, r, e in bad if r is not None or prop in LOADS]
                if n < b["calls"] and not bad:
                    raise CheckError("%s: %d of %d calls were executed" % (b["tag"], n, b["calls"]))
        extra = plan["post"](prop, TIER, SEED, work, compile_cpp, execute, CompileError, tp) if "post" in plan else {}
        for tag, v in extra.get("logs", {}).items():
            logs[tag] = v
        timing["run"] = time.time() - t0
        mres = model.result()
        timing["model"] = time.time() - t0
        sh = shard(list(logs.items()), 8)
        results = list(tp.map(lambda k: validate(cls, work, "shard%d" % k, sh[k][0], plan["spec"], plan["cfg"]), range(len(sh))))
    timing["validate"] = time.time() - t0

    states = sum(r[2] for r in results)
    trans = sum(r[1] for r in results)
    nchunks = sum(1 for l in logs.values() for x in l if x.startswith('{"o":"init"'))
    rejected = []
    for (lines, src), (rj, _, _) in zip(sh, results):
        for i in rj:
            rejected.append(src[i])
    rejected.sort()
    byjob = {j["tag"]: j for j in jobs}
    known = known_findings(prop)
    violations, knownhit = [], {}
    badloads = 0
    for tag, i in rejected:
        ll = logs[tag]
        s = max(k for k in range(i + 1) if ll[k].startswith('{"o":"init"'))
        event = ll[i]
        if event.startswith('{"o":"load"') and prop not in LOADS:
            badloads += 1
            continue
        hit = [k for k in known if k[0].search(event)]
        if hit:
            knownhit[hit[0][1]] = knownhit.get(hit[0][1], 0) + 1
            continue
        violations.append((tag, s, i, event))
    for k, n in knownhit.items():
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v in extra.get("violations", []):
        p = write_replay(prop, len(violations), v)
        log("VIOLATION property=%s replay=%s" % (prop, p))
    seen = {}
    for n, (b, k, r, e) in enumerate(genbad):
        what = (e.get("o"), e.get("f"), e.get("t"))
        seen[what] = seen.get(what, 0) + 1
        if seen[what] > 1 or len(seen) > 15:
            continue
        h = max(x for x in range(k + 1) if b["lines"][x].startswith("init"))
        p = write_replay(prop, 1000 + n, {"property": prop, "event": e, "predicted": r, "defs": b["defs"], "extra": [],
                                          "script": b["lines"][h:k + 1], "spec": plan["spec"], "cfg": plan["cfg"]})
        log("VIOLATION property=%s replay=%s" % (prop, p))
        log("    %s predicted %s, observed %s" % (b["lines"][k], json.dumps(r and {"w": r["w"], "r": r["r"]})[:300], json.dumps(e)[:300]))
    for what, n in seen.items():
        if n > 1:
            log("    (%d behaviours of the specification that differ in calls like %s)" % (n, what))
    if badloads:
        log("%d executions left out: their operands could not be put in place (see C15, C22, C23)" % badloads)
    nviol = len(violations) + len(extra.get("violations", [])) + len(genbad)
    shown = {}
    for n, (tag, s, i, event) in enumerate(violations):
        try:
            e = json.loads(event)
            sig = (e.get("o"), e.get("f"), e.get("t"))
        except ValueError:
            sig = event[:40]
        shown[sig] = shown.get(sig, 0) + 1
        if shown[sig] > 1 or len(shown) > 25:
            continue
        rec = {"property": prop, "event": event, "log": logs[tag][s:i + 1], "spec": plan["spec"], "cfg": plan["cfg"]}
        j = byjob.get(tag)
        if j:
            rec.update({"defs": j["defs"], "extra": j.get("extra", []), "script": chunk_script(scripts[tag], logs[tag], s)})
        else:
            rec["kind"] = "constexpr"
        p = write_replay(prop, n, rec)
        log("VIOLATION property=%s replay=%s" % (prop, p))
        log("   ", tag, event[:400])
    for sig, n in shown.items():
        if n > 1:
            log("    (%d rejected executions like %s)" % (n, sig))

    samples = []
    for tag in list(logs)[:6]:
        evs = [x for x in logs[tag] if not x.startswith(('{"o":"init"', '{"o":"load"', '{"o":"reset"'))]
        if evs:
            samples.append({"config": tag, "events": [x[:600] for x in evs[:: max(1, len(evs) // 2)][:2]]})
    events = sum(1 for l in logs.values() for x in l if not x.startswith(('{"o":"init"', '{"o":"load"', '{"o":"reset"')))
    ops = {}
    for l in logs.values():
        for x in l:
            o = x[6:x.index('"', 6)]
            if o not in ("init", "load", "reset"):
                ops[o] = ops.get(o, 0) + 1
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": states + mres["states"], "transitions": trans + mres["transitions"],
                       "traces_validated_against_impl": nchunks, "samples": samples,
                       "calls_validated": events, "calls_by_operation": ops,
                       "behaviours_replayed": {b["tag"]: {"calls": b["calls"], "transitions": b["transitions"]} for b in gens},
                       "calls_replayed_from_spec": gencalls,
                       "model_runs": mres["runs"], "trace_states": states,
                       "configurations": sorted(logs), **extra.get("coverage", {})},
          "assumptions": plan.get("assumptions", plans.ASSUME),
          "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d calls in %d executions validated, %d calls replayed from the specification, model %d states; %d rejected; %.1fs %s" % (
        prop, TIER, events, nchunks, gencalls, mres["states"], nviol, time.time() - t0, {k: round(v, 1) for k, v in timing.items()}))
    return 1 if nviol else 0


def chunk_script(script, ll, s):
    """the script lines of the chunk whose header is log line s"""
    n = sum(1 for k in range(s + 1) if ll[k].startswith('{"o":"init"'))
    return chunks_of(script)[n - 1]


if __name__ == "__main__":
    sys.exit(main())
