"""Generators for the properties about all operations at once (C24, C25): a call is built as a
template whose operands have roles, so that the same call can be made on other registers."""
import math

from gen import Gen, UTYPES, STYPES, hx

POOL = {"u": [0, 1, 2, 3], "s": [4, 5, 6, 7], "U": [8, 9], "S": [10, 11]}
NOALIAS = {"dm", "xgcd"}     # destinations that must not be operands


class Gen2(Gen):
    IO = ["parse", "out", "insq", "gstr", "wbin", "rbin", "outf", "wbinf"]
    PURE = ["ubin", "ubini", "uasg", "uasgi", "uun", "ustep", "shift", "shifta", "ucmp", "ucmpi", "ucmpx", "udm", "gcd", "lcm", "xgcd", "powm", "usqrt", "upow2",
            "set", "get", "qry", "cons", "icast", "pcast", "ucast", "fromu", "copy", "swap", "sbin", "sbini", "sasg", "sasgi", "sun", "inv", "sstep", "scmp",
            "scmpi", "scmpx", "sdm", "ssqrt", "spow2"]

    def eq(self, a, W=None):
        """another operand, often equal to a"""
        k = self.r.random()
        return a if k < 0.45 else self.near(a, W) if k < 0.7 else self.nat(W)

    def tmpl(self, kind=None, small=None):
        """(format, [(role, kind, value)], [(destination role, kind)])"""
        r, N, M = self.r, self.N, self.M
        nat = self.nat
        k = kind or r.choice(self.PURE + self.IO)
        if k in ("ubin", "uasg"):
            op = r.choice(["add", "sub", "mul", "div", "mod", "and", "or", "xor"])
            a = nat()
            b = self.eq(a)
            if op in ("div", "mod") and b == 0:
                b = 1
            if k == "ubin":
                return op + " f=rr d={d} a={a} b={b}", [("a", "u", a), ("b", "u", b)], [("d", "u")]
            return op + " f==r d={d} b={b}", [("d", "u", a), ("b", "u", b)], []
        if k in ("ubini", "uasgi"):
            op = r.choice(["add", "sub", "mul", "div", "mod", "and", "or", "xor"])
            t, v = self.ulit()
            a = nat()
            f = r.choice(["ri", "rc", "ir"]) if k == "ubini" else "=i"
            if op in ("div", "mod"):
                v = v or 1
                a = a or 1
            if f == "=i":
                return "%s f==i d={d} t=%s k=%s" % (op, t, hx(v)), [("d", "u", a)], []
            return "%s f=%s d={d} a={a} t=%s k=%s" % (op, f, t, hx(v)), [("a", "u", a)], [("d", "u")]
        if k == "uun":
            return r.choice(["neg", "pos", "not"]) + " d={d} a={a}", [("a", "u", nat())], [("d", "u")]
        if k == "ustep":
            return "%s f=%s d={d}" % (r.choice(["inc", "dec"]), r.choice(["pre", "post"])), [("d", "u", nat())], []
        if k in ("shift", "shifta"):
            n = r.choice([0, 1, 31, 32, 33, r.randrange(N), r.randrange(N), N - 1, N, N + 1])
            t = r.choice([x for x in UTYPES if n < 1 << UTYPES[x]])
            op = r.choice(["shl", "shr"])
            if k == "shift":
                return "%s f=r d={d} a={a} t=%s n=%x" % (op, t, n), [("a", "u", nat())], [("d", "u")]
            return "%s f== d={d} t=%s n=%x" % (op, t, n), [("d", "u", nat())], []
        if k == "ucmp":
            a = nat()
            return "cmp f=rr a={a} b={b}", [("a", "u", a), ("b", "u", self.eq(a))], []
        if k == "ucmpi":
            t, v = self.ulit()
            return "cmp f=%s a={a} t=%s k=%s" % (r.choice(["ri", "ir"]), t, hx(v)), [("a", "u", r.choice([v, nat(), v + 1]))], []
        if k == "ucmpx":
            a = nat(min(N, M)) if r.random() < 0.5 else nat()
            b = a % (1 << M) if r.random() < 0.6 else nat(M)
            x, y = r.choice([("u", "U"), ("U", "u")])
            if x == "U":
                a, b = b, a
            return "cmp f=rr a={a} b={b}", [("a", x, a), ("b", y, b)], []
        if k == "udm":
            n, d = self.quot()
            if r.random() < 0.3:
                n = d
            return "dm f=%s d={d} d2={d2} a={a} b={b}" % r.choice(["out", "pair"]), [("a", "u", n), ("b", "u", d)], [("d", "u"), ("d2", "u")]
        if k in ("gcd", "lcm", "xgcd"):
            a = nat()
            b = self.eq(a)
            if r.random() < 0.4:
                g = r.getrandbits(N // 3) | 1
                a, b = g * (r.getrandbits(N // 2) | 1), g * (r.getrandbits(N // 2) | 1)
            if k == "lcm":
                a, b = a >> (N // 2 + 1), b >> (N // 2 + 1)
                if r.random() < 0.3:
                    b = a
            if k == "xgcd":
                return "xgcd d={d} d2={d2} d3={d3} a={a} b={b}", [("a", "u", a), ("b", "u", b)], [("d2", "u"), ("d3", "u"), ("d", "u")]
            return k + " d={d} a={a} b={b}", [("a", "u", a), ("b", "u", b)], [("d", "u")]
        if k == "powm":
            m = max(1, nat() >> (N - N // 2))
            f = r.choice(["m", "t", "x"])
            p = r.choice([0, 1, 2, 3, r.getrandbits(16), r.getrandbits(min(N, M) if min(N, M) <= 160 else 70), m, (1 << 32), (1 << 32) + 1])
            b = r.choice([0, 1, nat(), m, p, m - 1, m + 1])
            return "powm f=%s d={d} a={a} p={p} m={m}" % f, [("a", "u", b), ("p", "U" if f == "x" else "u", p), ("m", "u", m)], [("d", "u")]
        if k == "usqrt":
            return "sqrt d={d} a={a}", [("a", "u", nat())], [("d", "u")]
        if k == "ssqrt":
            return "sqrt d={d} a={a}", [("a", "s", self.sgn(nat()))], [("d", "s")]
        if k in ("upow2", "spow2"):
            return "pow2 d={d} n=%x" % r.choice([0, 1, 31, 32, N - 1, N, N + 1, r.randrange(N)]), [], [("d", "u" if k == "upow2" else "s")]
        if k in ("set", "get"):
            fld, w = r.choice([("bit", 1), ("byte", 8), ("blk", 32)])
            n = r.choice([0, N // w - 1, N // w, N // w + 1, r.randrange(N // w), r.randrange(N // w)])
            v = r.choice([0, (1 << w) - 1, r.getrandbits(w)])
            s = r.choice("us")
            x = nat() | (1 << (N - 1)) | 1
            if k == "set" and s == "s" and v == 0 and x == 0:
                v = 1
            if k == "set":
                if s == "s":
                    x = self.sgn(x | 3 | 3 << max(0, N - 40))     # never becomes zero
                return "set%s d={d} n=%x v=%x" % (fld, n, v), [("d", s, x)], []
            return "get%s a={a} n=%x" % (fld, n), [("a", s, self.sgn(x) if s == "s" else x)], []
        if k == "qry":
            s = r.choice("us")
            return "qry a={a}", [("a", s, self.sgn(nat()) if s == "s" else nat())], []
        if k == "cons":
            s = r.choice("us")
            t, v = self.ulit() if s == "u" else self.ilit()
            if s == "s" and not self.fits(v):
                v = 1
            return "cons f=%s d={d} t=%s k=%s" % (r.choice(["ctor", "asg"]), t, hx(v)), [], [("d", s)]
        if k == "icast":
            s = r.choice("us")
            t = r.choice(list(UTYPES) + list(STYPES))
            w = UTYPES.get(t) or STYPES[t]
            v = r.choice([nat(), r.getrandbits(w), 1 << (w - 1), (1 << w) - 1])
            return "icast a={a} t=%s" % t, [("a", s, self.sgn(v) if s == "s" else v)], []
        if k == "pcast":
            x, y = r.choice([("u", "U"), ("U", "u"), ("s", "S"), ("S", "s")])
            v = nat(N if x in "us" else M)
            return "pcast a={a} d={d}", [("a", x, self.sgn(v) if x in "sS" else v)], [("d", y)]
        if k == "ucast":
            return "ucast a={a} d={d}", [("a", "s", self.sgn(nat()))], [("d", "u")]
        if k == "fromu":
            return "fromu a={a} d={d}", [("a", "u", nat())], [("d", "s")]
        if k == "copy":
            s = r.choice("us")
            return "copy f=%s a={a} d={d}" % r.choice(["ctor", "asg", "mem", "mv"]), [("a", s, self.sgn(nat()) if s == "s" else nat())], [("d", s)]
        if k == "swap":
            s = r.choice("us")
            a = self.sgn(nat()) if s == "s" else nat()
            b = a if r.random() < 0.5 else nat()
            return "swap %sa={a} b={b}" % r.choice(["", "", "f=mv "]), [("a", s, a), ("b", s, b)], []
        if k in ("sbin", "sasg"):
            while True:
                op = r.choice(["add", "sub", "mul", "div", "mod"])
                a = nat()
                b = self.eq(a)
                if op == "mul":
                    a, b = a >> (N // 2), b >> (N // 2)
                a, b = self.sgn(a), self.sgn(b)
                if r.random() < 0.4:
                    b = a
                if op in ("div", "mod"):
                    if b == 0:
                        continue
                elif not self.fits({"add": a + b, "sub": a - b, "mul": a * b}[op]):
                    continue
                break
            if k == "sbin":
                return op + " f=rr d={d} a={a} b={b}", [("a", "s", a), ("b", "s", b)], [("d", "s")]
            return op + " f==r d={d} b={b}", [("d", "s", a), ("b", "s", b)], []
        if k in ("sbini", "sasgi"):
            f = r.choice(["ri", "rc", "ir"]) if k == "sbini" else "=i"
            while True:
                op = r.choice(["add", "sub", "mul", "div", "mod"])
                t, v = self.ilit()
                a = self.sgn(nat())
                if op == "mul":
                    a = -(-a >> 64) if a < 0 else a >> 64
                if op in ("div", "mod"):
                    if v == 0 or a == 0:
                        continue
                elif not self.fits({"add": a + v, "sub": (v - a if f == "ir" else a - v), "mul": a * v}[op]):
                    continue
                break
            if f == "=i":
                return "%s f==i d={d} t=%s k=%s" % (op, t, hx(v)), [("d", "s", a)], []
            return "%s f=%s d={d} a={a} t=%s k=%s" % (op, f, t, hx(v)), [("a", "s", a)], [("d", "s")]
        if k == "sun":
            return r.choice(["neg", "pos"]) + " d={d} a={a}", [("a", "s", self.sgn(nat()))], [("d", "s")]
        if k == "inv":
            return "inv d={d}", [("d", "s", self.sgn(nat()))], []
        if k == "sstep":
            v = r.choice([0, 1, -1, self.sgn(nat() >> 1)])
            return "%s f=%s d={d}" % (r.choice(["inc", "dec"]), r.choice(["pre", "post"])), [("d", "s", v)], []
        if k == "scmp":
            a = self.sgn(nat())
            b = a if r.random() < 0.4 else self.sgn(self.eq(abs(a)))
            return "cmp f=rr a={a} b={b}", [("a", "s", a), ("b", "s", b)], []
        if k == "scmpi":
            t, v = self.ilit()
            a = r.choice([v, v + 1, -v, self.sgn(nat())])
            return "cmp f=%s a={a} t=%s k=%s" % (r.choice(["ri", "ir"]), t, hx(v)), [("a", "s", a if self.fits(a) else 0)], []
        if k == "scmpx":
            a = nat(min(N, M)) if r.random() < 0.5 else nat()
            b = a % (1 << M) if r.random() < 0.6 else nat(M)
            s = r.choice([1, -1])
            a, b = a * s, b * s
            x, y = r.choice([("s", "S"), ("S", "s")])
            if x == "S":
                a, b = b, a
            return "cmp f=rr a={a} b={b}", [("a", x, a), ("b", y, b)], []
        if k == "sdm":
            n, d = self.quot()
            if r.random() < 0.3:
                n = d
            n, d = self.sgn(n), self.sgn(d)
            if r.random() < 0.3 and abs(n) == abs(d):
                n = d
            return "dm f=out d={d} d2={d2} a={a} b={b}", [("a", "s", n), ("b", "s", d)], [("d", "s"), ("d2", "s")]
        if k == "parse":
            s = r.choice("us")
            base = r.choice([2, 8, 10, 16])
            v = nat(64 if N > 512 else N)
            if base == 2:
                v %= 1 << 128
            txt = r.choice(["", "", "-", "--", "+ "]) + {2: "0b", 8: "0o", 10: "", 16: "0x"}[base] + (
                {2: "{:b}", 8: "{:o}", 10: "{:d}", 16: "{:x}"}[base].format(v)) + r.choice(["", "", "-", " "])
            return "parse d={d} f=%s wide=%d x=%s" % (r.choice(["ptr", "str", "strm", "sv", "svm"]), r.randrange(2), ",".join(str(ord(c)) for c in txt)), [], [("d", s)]
        if k == "out":
            s = r.choice("us")
            v = nat(64) if N > 512 else nat()
            return "out a={a} d={d} base=%d up=%d sb=%d wide=%d bk=0" % (r.choice([8, 10, 16]), r.randrange(2), r.randrange(2), r.randrange(2)), [
                ("a", s, self.sgn(v) if s == "s" else v)], [("d", s)]
        if k == "outf":
            s = r.choice("us")
            v = nat(64) if N > 512 else nat()
            return "outf a={a} base=%d up=%d sb=%d wide=%d cap=%d" % (r.choice([8, 10, 16]), r.randrange(2), r.randrange(2), r.randrange(2), r.choice([0, 3, r.randrange(40), 2 * N])), [
                ("a", s, self.sgn(v) if s == "s" else v)], []
        if k == "wbinf":
            return "wbinf a={a}%s cap=%d" % (self.big(r.randrange(2)), r.choice([0, 3, r.randrange(N // 8 + 2)])), [("a", "u", nat())], []
        if k == "insq":
            v, w = (nat(64), nat(64)) if N > 512 else (nat(), nat())
            return "insq as={a},{b},{a} base=%d up=%d sb=%d wide=%d adj=%d fill=%d prec=6 extra=0" % (
                r.choice([8, 10, 16]), r.randrange(2), r.randrange(2), r.randrange(2), r.randrange(4), r.choice([32, 42])), [
                ("a", "u", v), ("b", "s", self.sgn(w))], []
        if k == "gstr":
            s = r.choice("us")
            v = nat(64) if N > 512 else nat()
            return "gstr a={a} base=%d up=%d%s wide=%d cap=%d" % (r.choice([2, 8, 10, 16]), r.randrange(2), r.choice(["", " sb=0", " sb=1", " sb=1"]), r.randrange(2),
                                                                     r.choice([0, 2, 5, 20, N + 5, N + 5, N + 5])), [("a", s, self.sgn(v) if s == "s" else v)], []
        if k == "wbin":
            return "wbin a={a}%s" % self.big(r.randrange(2)), [("a", "u", nat())], []
        if k == "rbin":
            n = r.choice([N // 8, N // 8, N // 8 + 3, r.randrange(N // 8)])
            return "rbin d={d}%s x=%s" % (self.big(r.randrange(2)), ",".join(str(r.randrange(256)) for _ in range(n))), [], [("d", "u")]
        raise KeyError(k)

    # ------------------------------------------------------------ instantiation
    def place(self, t, mode, avoid=(), shared=None):
        """registers for the roles.  mode: "distinct", "alias" (equal operands share a register, the
        destination is an operand where that is allowed), "shared" (operands with the shared values)"""
        fmt, ops, dst = t
        r = self.r
        free = {k: [x for x in v if x not in avoid] for k, v in POOL.items()}
        for v in free.values():
            r.shuffle(v)
        where, values = {}, {}
        for role, kind, val in ops:
            got = None
            if shared and role in ("a", "b", "p", "m") and val == shared.get(kind):
                got = {"u": 12, "s": 13}.get(kind)
            elif mode == "alias" and r.random() < 0.85:
                same = [w for w in where.values() if values.get(w) == val and w in values and w in POOL[kind]]
                if same:
                    got = same[0]
            if got is None:
                got = free[kind].pop()
                values[got] = val
            where[role] = got
        noalias = fmt.split()[0] in NOALIAS
        if fmt.startswith("dm f=pair"):
            noalias = False
        for role, kind in dst:
            got = None
            if role == "d" and fmt.startswith("xgcd"):      # the value returned may go anywhere
                used = [where["d2"], where["d3"]]
                got = r.choice([w for w in POOL["u"] if w not in used and w not in avoid])
            if mode == "alias" and not noalias and r.random() < 0.85:
                cand = [w for w in values if w in POOL[kind] and w not in [where[x] for x, _ in dst if x in where]]
                if cand:
                    got = r.choice(cand)
            where[role] = got if got is not None else free[kind].pop()
        loads = ["load d=%d k=%s" % (w, hx(v)) for w, v in values.items()]
        # what the destination held before must not matter
        for role, kind in dst:
            w = where[role]
            if w not in values and r.random() < 0.6:
                v = self.nat(self.N if kind in "us" else self.M)
                loads.append("load d=%d k=%s" % (w, hx(self.sgn(v) if kind in "sS" else v)))
        r.shuffle(loads)
        return loads + [fmt.format(**where)]

    def sibling(self, t):
        """the same call with part of one operand changed (made smaller, so that it stays in the domain)"""
        fmt, ops, dst = t
        r = self.r
        cand = [i for i, o in enumerate(ops) if abs(o[2]) > 1]
        if not cand or fmt.split()[0].startswith("set"):
            return None
        i = r.choice(cand)
        role, kind, v = ops[i]
        m = abs(v)
        blocks = [(m >> s) & 0xffffffff for s in range(0, m.bit_length(), 32)]
        j = r.choice([k for k, b in enumerate(blocks) if b])
        blocks[j] = r.choice([0, blocks[j] >> 1, blocks[j] - 1, blocks[j] & (blocks[j] - 1), r.randrange(blocks[j])])
        if len(blocks) > 2 and r.random() < 0.3:        # two blocks change places
            k = r.randrange(len(blocks) - 1)
            blocks[j], blocks[k] = min(blocks[j], blocks[k]), blocks[k]
        m = sum(b << (32 * k) for k, b in enumerate(blocks)) or 1
        ops = ops[:i] + [(role, kind, -m if v < 0 else m)] + ops[i + 1:]
        if fmt.startswith("lcm"):
            a, b = (abs(o[2]) for o in ops[:2])
            if math.lcm(a, b) >= 1 << self.N:
                return None
        return fmt, ops, dst

    def c24(self):
        r = self.r
        kinds = self.PURE + self.IO
        todo = []
        for k in kinds:
            todo += [k] * self.count(10 if k in ("uasg", "sasg", "ubin", "sbin", "swap", "udm", "sdm", "gcd", "powm", "xgcd") else 5)
        r.shuffle(todo)
        heavy = {"powm", "gcd", "xgcd", "lcm"}
        if self.N > 600:
            todo = [k for k in todo if k not in heavy or (r.random() < 0.3 and self.N <= 1024)]
        if self.N > 1024:
            del todo[150:]
        for k in todo:
            t = self.tmpl(k)
            self.init()
            for l in self.place(t, "distinct"):
                self.emit(l)
            for mode in ("alias", "alias", "distinct"):
                self.emit("reset")
                for l in self.place(t, mode):
                    self.emit(l)
            # after other calls, of the same kind and of other kinds
            self.emit("reset")
            for kk in [k, k] + [r.choice(kinds if self.N <= 600 else [x for x in kinds if x not in heavy]) for _ in range(3)]:
                for l in self.place(self.tmpl(kk), r.choice(["distinct", "alias"])):
                    self.emit(l)
            for l in self.place(t, r.choice(["distinct", "alias"])):
                self.emit(l)
            for l in self.place(t, "distinct"):
                self.emit(l)
            # after calls that differ in little
            near = [x for x in (self.sibling(t) for _ in range(3)) if x]
            for x in near:
                for l in self.place(x, r.choice(["distinct", "alias"])):
                    self.emit(l)
            for x in near[:1] + [t]:
                for l in self.place(x, "distinct"):
                    self.emit(l)
        self.c24threads()

    def c24threads(self, groups=None, rounds=400):
        """the same calls in one thread and in several at once, sharing const operands"""
        r = self.r
        rounds = rounds if self.N <= 600 else rounds // 4 if self.N <= 1024 else rounds // 20
        kinds = self.PURE + self.IO
        if self.N > 600:
            kinds = [k for k in kinds if k not in ("powm", "gcd", "xgcd", "lcm")]
        for _ in range(groups or self.count(3)):
            top = 1 << min(self.N, 1500)
            su, ss = self.nat() % top | 1, self.sgn(self.nat() % top | 1)
            self.lines.append("shared %s %s" % (hx(su), hx(ss)))
            self.init()
            sh = {"u": su, "s": ss}
            base = [self.tmpl(k) for k in r.sample(kinds, min(len(kinds), 18))]
            for k in ("ubin", "sbin", "ubin", "sbin", "ucmp", "udm", "qry", "out", "copy", "shift"):
                t = self.tmpl(k)
                # some operand is the shared object
                f, ops, dst = t
                cand = [i for i, o in enumerate(ops) if o[0] in ("a", "b") and o[1] in "us"]
                if cand:
                    i = r.choice(cand)
                    o = ops[i]
                    ops = list(ops)
                    ops[i] = (o[0], o[1], sh[o[1]])
                    ok = not (f.split()[0] in ("add", "sub", "mul") and o[1] == "s")
                    if ok:
                        t = (f, ops, dst)
                base.append(t)
            scripts = []
            for _ in range(6):
                order = base[:]
                r.shuffle(order)
                scripts.append([l for t in order for l in self.place(t, r.choice(["distinct", "alias"]), shared=sh)])
            for s in scripts[:2]:
                self.emit("reset")
                for l in s:
                    self.emit(l)
            self.lines.append("threads %d %d" % (len(scripts), rounds))
            for i, s in enumerate(scripts):
                if i:
                    self.lines.append("next")
                self.lines += s
            self.lines.append("end")

    def c25(self):
        r, N = self.r, self.N
        heavy = ("powm", "gcd", "xgcd", "lcm", "usqrt", "ssqrt", "udm", "sdm")
        for k in self.PURE:
            if N > 512 and k in heavy:
                continue
            for _ in range(self.count(4 if k not in heavy else 2)):
                t = self.tmpl(k)
                ls = self.place(t, r.choice(["distinct", "distinct", "alias"]))
                self.room(len(ls))
                for l in ls:
                    self.emit(l)
        # every distance class of the shifts, every block and bit position class
        n = N // 32
        for i in range(n):
            for op in ("shl", "shr"):
                d = min(N - 1, 32 * i + r.choice([0, 0, 1, 31, r.randrange(32)]))
                self.room(2)
                a, b = self.ureg(), self.ureg()
                self.load(a, self.nat() | 1 | 1 << (N - 1))
                t = r.choice([x for x in UTYPES if d < 1 << UTYPES[x]])
                self.emit("%s f== d=%d t=%s n=%x" % (op, a, t, d) if r.random() < 0.5 else "%s f=r d=%d a=%d t=%s n=%x" % (op, b, a, t, d))
            self.room(6)
            a, s = self.ureg(), self.sreg()
            self.load(a, self.nat())
            self.load(s, self.sgn(self.nat() | 3 | 3 << max(0, N - 40)))
            for reg in (a, s):
                fld, w = r.choice([("bit", 1), ("byte", 8), ("blk", 32)])
                p = (32 * i + r.randrange(32)) // w
                self.emit("set%s d=%d n=%x v=%x" % (fld, reg, p, r.choice([1, (1 << w) - 1, r.getrandbits(w) | 1])))
                self.emit("get%s a=%d n=%x" % (fld, reg, p))


if __name__ == "__main__":
    import sys
    g = Gen2(int(sys.argv[2]), int(sys.argv[3]), "x", float(sys.argv[4]) if len(sys.argv) > 4 else 1.0)
    getattr(g, sys.argv[1])()
    print("\n".join(g.lines))
