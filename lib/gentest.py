"""Behaviours generated by TLC from spec/AesiGen.tla, replayed on the real code.

plan(prop, tier)    the TLC runs for a property
generate(...)       runs TLC; returns [(call, predicted writes, predicted result, registers before)]
script(...)         the driver script that makes the real code do the same
compare(...)        predictions against what the driver recorded"""
import json
import os
import re
import subprocess

FOUR = '"00000000", "00000001", "80000000", "ffffffff"'
FIVE = FOUR + ', "7fffffff"'
SEVEN = FIVE + ', "00010000", "fffffffe"'
TWELVE = SEVEN + ', "00000002", "0000ffff", "80000001", "c0000000", "55555555"'
MORE = {False: '"7fffffff"', True: '"7fffffff", "00010000", "fffffffe", "0000ffff"'}
MOREVALUES = {"C14", "C16", "C18", "C19", "C21", "C23"}
WALKS = {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C11", "C15", "C23", "C24"}
ALLS = {"C%02d" % k for k in range(1, 27)} - {"C20", "C25"}
# what C11 and C24 say is less than the whole prediction: their behaviours are validated, as traces, instead
VALIDATED = {"C11", "C24"}


def plan(prop, tier):
    """[(N, M, style, blocks, part, parts, walks, depth)]"""
    out = []
    thorough = tier == "thorough"
    if prop in ALLS:
        parts = 1 if prop == "C17" else 8 if thorough else 4
        for k in range(parts):
            out.append((96, 160, "all", FIVE if thorough else FOUR, k, parts, 0, 0))
            if prop != "C17":
                out.append((64, 96, "all", TWELVE if thorough else SEVEN, k, parts, 0, 0))
        if thorough:
            for k in range(4):
                out.append((128, 96, "all", FOUR, k, 4, 0, 0))
    if prop in WALKS:
        for n, m, num in ([(96, 160, 40), (256, 512, 15)] if not thorough else [(96, 160, 600), (128, 96, 400), (256, 512, 200), (1024, 768, 40)]):
            out.append((n, m, "walk", FIVE, 0, 1, num, 50))
    return out


def generate(run_tlc, work, prop, p, seed):
    n, m, style, blocks, part, parts, num, depth = p
    tag = "gen-%s-%d-%d-%s%d" % (prop, n, m, style, part)
    cfg = os.path.join(work, tag + ".cfg")
    with open(cfg, "w") as f:
        f.write('SPECIFICATION Spec\nCONSTANTS N = %d\n M = %d\n Group = "%s"\n Style = "%s"\n Blocks = {%s}\n More = {%s}\n Part = %d\n Parts = %d\n'
                "INVARIANT Canonical\nCHECK_DEADLOCK FALSE\n" % (n, m, prop, style, blocks, MORE[os.environ.get("VERIF_TIER") == "thorough" or prop in MOREVALUES], part, parts))
    args = ["-workers", "1", "-config", cfg]
    if style == "walk":
        args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(int.from_bytes(("%s%s%d" % (seed, prop, n)).encode(), "big") % 1000003)]
    out = run_tlc(args + ["AesiGen.tla"], tag)
    lines = []
    for l in out.split("\n"):
        if l.startswith('"{'):
            lines.append(json.loads(json.loads(l)))
    if style == "all":
        q = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
        if not q or "No error has been found" not in out:
            return tag, None, out
        return tag, (lines, int(q.group(1).replace(",", "")), int(q.group(2).replace(",", ""))), out
    if "Error:" in out or not lines:
        return tag, None, out
    q = re.search(r"number of states generated: ([\d,]+)|([\d,]+) states checked", out)
    return tag, (lines, len(lines), len(lines)), out


def val(z):
    """a TLA+ number [s, m] as (sign, hexadecimal digits)"""
    return z["s"] * int.from_bytes(bytes(z["m"]), "little")


def call_line(c):
    out = [c["o"]]
    for k, v in c.items():
        if k == "o":
            continue
        if k == "k":
            h = v[1].lstrip("0") or "0"
            v = ("-" if v[0] < 0 and h != "0" else "") + h
        elif isinstance(v, bool):
            v = int(v)
        elif isinstance(v, list):
            v = ",".join(map(str, v))
        out.append("%s=%s" % (k, v))
    return " ".join(out)


def hx(v):
    return ("-%x" % -v) if v < 0 else "%x" % v


def script(recs, raw=False, chunk=80):
    """driver lines, and for each of them the record it comes from (None: a load or a header)"""
    lines, src = [], []
    cur = None
    head = "init raw" if raw else "init"
    for r in recs:
        walk_start = r["c"]["o"] == "load" and r["l"] == 1
        # parts of a chunk: loads of operands, call
        if cur is None or walk_start or (len(lines) - start >= chunk and r["pre"] and r["c"]["o"] != "load" and r["l"] == 1):
            lines.append(head)
            src.append(None)
            cur = {k: 0 for k in range(12)}
            start = len(lines)
        c = r["c"]
        if c["o"] == "load":
            v = val(r["w"][0][1])
            lines.append("load d=%d k=%s" % (c["d"], hx(v)))
            src.append(None)
            cur[c["d"]] = v
            continue
        for i, z in r["pre"]:
            v = val(z)
            if cur[i] != v:
                lines.append("load d=%d k=%s" % (i, hx(v)))
                src.append(None)
                cur[i] = v
        lines.append(call_line(c))
        src.append(r)
        for i, z in r["w"]:
            cur[i] = val(z)
    return lines, src


def event_result(e):
    r = e.get("r")
    if isinstance(r, list) and len(r) == 2 and isinstance(r[1], str):
        return r[0] * int(r[1] or "0", 16)
    return r


def compare(lines, src, log):
    """(number of calls compared, [(index in the script, record, event)] that differ).
    Comparing stops in a chunk at its first difference."""
    bad, n = [], 0
    li = 0
    cur, seen, skip = None, None, False
    for k, l in enumerate(lines):
        if li >= len(log):
            break
        if l.startswith("init"):
            while li < len(log) and not log[li].startswith('{"o":"init"'):
                li += 1          # (what a crash cut short)
            if li >= len(log):
                break
            cur = {i: 0 for i in range(12)}
            seen = dict(cur)
            skip = False
            li += 1
            continue
        if skip:
            if log[li].startswith('{"o":"init"'):
                continue
            li += 1
            continue
        if log[li].startswith('{"o":"init"'):
            skip = True
            continue
        e = json.loads(log[li])
        li += 1
        if e["o"] == "crash":
            bad.append((k, src[k], e))
            skip = True
            continue
        for i, s, h in e["w"]:
            seen[i] = s * int(h or "0", 16) if s in (-1, 0, 1) and (s == 0) == (h == "") else "not a number"
        ok = not e.get("oob")
        r = src[k]
        if r is None:
            d = int(re.search(r" d=(\d+)", l).group(1))
            v = l.split("k=")[1]
            cur[d] = int(v, 16)
            ok = ok and cur == seen
        else:
            n += 1
            for i, z in r["w"]:
                cur[i] = val(z)
            want = r["r"]
            if isinstance(want, dict) and "m" in want:
                want = val(want)
            got = event_result(e)
            if r["r"] == [] and "r" not in e:
                got = []
            if isinstance(got, list) and r["r"] == [] and r["c"]["o"] in NORESULT:
                got = []
            ok = ok and cur == seen and got == want
        if not ok:
            bad.append((k, r, e))
            skip = True
    return n, bad


NORESULT = {"neg", "pos", "not", "inv", "dm", "gcd", "lcm", "powm", "sqrt", "pow2", "setbit", "setbyte", "setblk", "cons", "pcast", "ucast",
            "fromu", "copy", "swap", "mpz", "parse"}
