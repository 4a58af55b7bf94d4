"""C25: the calls of a script as constant expressions."""
import os
import subprocess

import gen2

OPN = {"and": "band", "or": "bor", "xor": "bxor", "not": "bnot"}
FRM = {"=r": "asg_r", "=i": "asg_i", "=": "asg_r", "r": "rr", "mem": "member", "mv": "move"}
TYN = {"bool": "bl"}


def val(h):
    neg = h.startswith("-")
    m = int(h, 16)
    m = -m if neg else m
    if m == 0:
        return "Val{}"
    bl = []
    while m:
        bl.append("0x%xu" % (m & 0xffffffff))
        m >>= 32
    return "Val{%d, %d, {%s}}" % (-1 if neg else 1, len(bl), ",".join(bl))


def cmd(line):
    t = line.split()
    kv = dict(x.split("=", 1) for x in t[1:])
    f = [".op=Op::" + OPN.get(t[0], t[0])]
    if "f" in kv:
        f.append(".f=Form::" + FRM.get(kv["f"], kv["f"]))
    if "t" in kv:
        f.append(".t=Ty::" + TYN.get(kv["t"], kv["t"]))
    for k, n in (("d", "d"), ("d2", "d2"), ("d3", "d3"), ("a", "a"), ("b", "b"), ("p", "p"), ("m", "mm")):
        if k in kv:
            f.append(".%s=%s" % (n, kv[k]))
    if "k" in kv and t[0] != "load":
        h = kv["k"]
        neg = h.startswith("-")
        f.append(".neg=%s" % ("true" if neg else "false"))
        f.append(".k=0x%sull" % h.lstrip("-"))
    for k in ("n", "v"):
        if k in kv:
            f.append(".%s=0x%sull" % (k, kv[k]))
    return "Cmd{%s}" % ",".join(f)


def blocks(lines, size):
    """groups of about `size' lines that end after a call, each starting from cleared registers"""
    out, cur = [], []
    for l in lines:
        if l.startswith("init"):
            if cur:
                out.append(cur)
            cur = []
            continue
        if len(cur) >= size and not cur[-1].startswith("load") and l.startswith("load"):
            out.append(cur)
            cur = []
        cur.append(l)
    if cur:
        out.append(cur)
    return out


HEAVY = ("powm", "gcd", "xgcd", "lcm", "usqrt", "ssqrt")


def samples(N, M, seed, scale):
    """some short chunks of the scripts of the other properties"""
    out = []
    for p in ["c%02d" % k for k in range(1, 17)] + ["c22", "c23"]:
        if N > 256 and p in ("c12", "c13", "c14"):
            continue
        g = gen2.Gen2(N, M, "c25/%s/%s" % (p, seed), 0.25)
        g.chunk = 10
        getattr(g, p)()
        chunks, cur = [], []
        for l in g.lines + ["init"]:
            if l.startswith("init"):
                if cur and not any(x.startswith(("shared", "threads", "next", "end", "rbin", "wbin", "parse", "out", "gstr", "mpz")) for x in cur):
                    chunks.append(cur)
                cur = []
            else:
                cur.append(l)
        n = max(1, round((1 if p in ("c12", "c13") else 3) * min(scale, 3)))
        for c in g.r.sample(chunks, min(n, len(chunks))):
            out += ["init"] + c
    return out


def header(bl):
    s = []
    for k, b in enumerate(bl):
        n = len(b)
        s.append("static constexpr std::array<Cmd, %d> CMDS_%d {{ %s }};" % (n, k, ",\n  ".join(cmd(l) for l in b)))
        s.append("static constexpr std::array<Val, %d> LOADS_%d {{ %s }};" % (
            n, k, ", ".join(val(dict(x.split("=", 1) for x in l.split()[1:])["k"]) if l.startswith("load ") else "Val{}" for l in b)))
        s.append("static constexpr std::array<const char*, %d> TEXTS_%d {{ %s }};" % (n, k, ", ".join('"%s"' % l for l in b)))
        s.append("static CONSTANT Trace<%d> TRACE_%d = evaluate(CMDS_%d, LOADS_%d);" % (n, k, k, k))
    s.append("#define ALL_BLOCKS " + " ".join("CALL(%d)" % k for k in range(len(bl))))
    return "\n".join(s) + "\n"


LIMITS = ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=2000"]


def one(verif, work, compile_cpp, CompileError, tag, N, M, defs, bl):
    hp = os.path.join(work, tag + ".h")
    with open(hp, "w") as f:
        f.write(header(bl))
    d = ["N=%d" % N, "M=%d" % M, "NDEBUG", 'CASES="%s"' % hp] + defs
    src = os.path.join(verif, "driver/cexpr.cpp")
    try:
        exe = compile_cpp(work, tag, d, src, LIMITS)
    except CompileError as e:
        compile_cpp(work, tag + "-rt", d + ["RUNTIME"], src, LIMITS)     # must work, or the check cannot say anything
        return tag, None, {"kind": "constexpr", "config": tag, "error": str(e)[-3000:], "script": [l for b in bl for l in b]}
    lp = os.path.join(work, tag + ".log")
    p = subprocess.run([exe, lp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    with open(lp) as f:
        lines = [x for x in f.read().split("\n") if x]
    if p.returncode not in (0, 3):
        raise RuntimeError("cexpr %s: %d %s" % (tag, p.returncode, p.stdout[-500:]))
    return tag, lines, None


def post(configs, defs):
    def run(prop, tier, seed, work, compile_cpp, execute, CompileError, tp):
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        jobs = []
        for N, M, scale in configs(tier):
            g = gen2.Gen2(N, M, "c25/%s" % seed, scale)
            g.c25()
            bl = blocks(g.lines, 40) + blocks(samples(N, M, seed, scale), 40)
            per = max(1, (len(bl) + 1) // 2)
            for k in range(0, len(bl), per):
                jobs.append(("C25-%d-%d-%d" % (N, M, k // per), N, M, bl[k:k + per]))
        fs = [tp.submit(one, verif, work, compile_cpp, CompileError, t, N, M, defs, bl) for t, N, M, bl in jobs]
        logs, bad = {}, []
        for f in fs:
            tag, lines, v = f.result()
            if v:
                v["property"] = prop
                bad.append(v)
            else:
                logs[tag] = lines
        return {"logs": logs, "violations": bad,
                "coverage": {"constant_evaluation_units": len(jobs), "constant_expression_calls": sum(len(b) for j in jobs for b in j[3])}}
    return run
