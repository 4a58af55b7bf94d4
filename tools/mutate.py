#!/usr/bin/env python3
"""Mutation campaign (development tool, not a registered check): every single-token mutant of the
two headers is run against one composite script of all generators.
  mutate.py OUT [first [step]]"""
import concurrent.futures as cf
import os
import re
import shutil
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import check as C  # noqa: E402
import plans  # noqa: E402

INC = "/repo/include/AesiMultiprecision/"
RULES = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])(?= )", "<="), (r"(?<= )>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
         (r" \+ ", " - "), (r" - ", " + "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"--", "++"),
         (r"(?<![\w.])0(?=[uU;)\s])", "1"), (r"(?<![\w.])1(?=[uU;)\s])", "0"), (r"(?<![\w.])1(?=[uU;)\s])", "2"), (r" / ", " % "), (r" % ", " / "),
         (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r"(?<=[(\s])!(?=[\w])", ""), (r"Negative", "Positive"),
         (r"Positive", "Negative"), (r"Zero\b", "Positive"), (r"\bgreater\b", "less"), (r"\bless\b", "greater"), (r"\bequal\b", "less"),
         (r"blocksNumber", "(blocksNumber - 1)"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \* ", " + "), (r"quotient", "remainder"),
         (r"remainder", "quotient"), (r"\bbitness\b", "(bitness - 1)"), (r"blockMax", "(blockMax - 1)"), (r"blockBitLength", "(blockBitLength - 1)"),
         (r"break;", "continue;"), (r"continue;", "break;"), (r"(?<=\b)8(?=[;),\s])", "7"), (r"2(?=[;),\s])", "1"), (r"3(?=[;),\s])", "2"), (r"99u", "9u"),
         (r"uint64_t", "uint32_t"), (r"std::size_t", "uint8_t"), (r"unsigned long long", "unsigned")]


def mutants():
    out = []
    for f in ("Aeu.h", "Aesi.h"):
        lines = open(INC + f).read().split("\n")
        comment = off = False
        depth = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*") and "*/" not in s:
                comment = True
            if comment:
                if "*/" in s:
                    comment = False
                continue
            if s.startswith("#if"):
                if off:
                    depth += 1
                elif "__CUDACC__" in s or "AESI_UNSAFE" in s and s.startswith("#if defined") or "PRE_CPP_20" in s:
                    off, depth = True, 0
                continue
            if s.startswith("#else") and off and depth == 0:
                off = False
                continue
            if s.startswith("#endif"):
                if off:
                    if depth == 0:
                        off = False
                    else:
                        depth -= 1
                continue
            if off or s.startswith(("#", "//", "/*", "*", "using", "template", "static_assert", "assert")) or "[[nodiscard]]" in s:
                continue
            for a, b in RULES:
                for m in re.finditer(a, l):
                    out.append((f, i, l[:m.start()] + b + l[m.end():]))
            # statement deletion
            if s.endswith(";") and not re.match(r"(const|auto|gpu|return|std::size_t|uint64_t|Aeu|Aesi|block|Sign|Base|constexpr)\b", s) and "->" not in s and depth == 0:
                if not s.startswith(("for", "if", "case", "default", "}")):
                    out.append((f, i, re.sub(r"\S.*", ";", l)))
            if re.match(r"(else )?if\(.*\)", s) and not s.startswith("if constexpr") and "constexpr" not in s:
                out.append((f, i, re.sub(r"if\(", "if(false && ", l, count=1)))
                out.append((f, i, re.sub(r"if\(", "if(true || ", l, count=1)))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return res


CONFIGS = [(96, 160), (256, 192)]
FL = plans.ALL + ["F_PARSE", "F_STREAM", "F_GSTR", "F_FMT", "F_BIN", "F_GMP"]


def scripts():
    res = {}
    for N, M in CONFIGS:
        L = []
        for p in sorted(plans.FLAGS):
            if p in ("C24",):
                continue
            L += plans.generate(p.lower(), N, M, 1, 0.25)
        res[(N, M)] = L
    return res


def one(k, m, sc, root, cls):
    f, i, text = m
    d = os.path.join(root, "m%d" % k)
    inc = os.path.join(d, "include/AesiMultiprecision")
    os.makedirs(inc)
    try:
        for g in ("Aeu.h", "Aesi.h"):
            shutil.copy(INC + g, inc)
        lines = open(os.path.join(inc, f)).read().split("\n")
        lines[i] = text
        open(os.path.join(inc, f), "w").write("\n".join(lines))
        logs = []
        for n, (N, M) in enumerate(CONFIGS):
            exe = os.path.join(d, "drv%d" % n)
            cmd = ["timeout", "120", "g++", "-std=gnu++20", "-O1", "-w", "-DN=%d" % N, "-DM=%d" % M, "-DNDEBUG"] + ["-D" + x for x in FL] + [
                "-I" + V + "/driver", "-I" + d + "/include", V + "/driver/main.cpp", "-o", exe, "-lpthread", "-lgmpxx", "-lgmp"]
            p = C.run(cmd)
            if p.returncode:
                return "nocompile"
            try:
                part = C.execute(exe, sc[(N, M)], d, "x%d" % n)
            except C.CheckError as e:
                return "detected(driver %s)" % str(e)[:80]
            if any('"o":"crash"' in x for x in part):
                return "detected(crash)"
            try:
                rj, _, _ = C.validate(cls, d, "t", part, "AesiTrace.tla", "AesiTrace.cfg")
            except C.CheckError as e:
                return "error " + str(e)[-300:]
            if rj:
                return "detected %d" % len(rj)
        return "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    first = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    stepn = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    root = "/tmp/mut.%d" % os.getpid()
    os.makedirs(root)
    try:
        cls = C.classes(root)
        ms = mutants()
        sc = scripts()
        print(len(ms), "mutants", sum(len(x) for x in sc.values()), "lines", flush=True)
        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "7"))) as ex, open(out, "a") as fo:
            fs = {ex.submit(one, k, m, sc, root, cls): (k, m) for k, m in list(enumerate(ms))[first::stepn]}
            for f in cf.as_completed(fs):
                k, m = fs[f]
                try:
                    r = f.result()
                except Exception as e:
                    r = "error %r" % e
                fo.write("%d\t%s\t%s:%d\t%s\n" % (k, r.replace("\n", " ")[:300], m[0], m[1] + 1, m[2].strip()))
                fo.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
