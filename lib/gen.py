"""Script generators: one per property. A script is a list of lines for driver/main.cpp.

Generators only choose inputs (and keep calls inside the documented domain); what a call
must do is decided by the TLA+ specification when the recorded log is validated."""
import math
import random

BLK = 1 << 32
EDGE_BLOCKS = [0, 0, 0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xffffffff, 0xffffffff,
               0x10000, 0xffff, 0xff, 0x100, 0x00ff00ff, 0xaaaaaaaa]
UTYPES = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "ull": 64}
STYPES = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "ll": 64}


def hx(v):
    return ("-%x" % -v) if v < 0 else "%x" % v


class Gen:
    def __init__(self, N, M, seed, scale=1.0):
        self.N, self.M = N, M
        self.r = random.Random("%s/%s/%s" % (seed, N, M))
        self.scale = scale
        self.lines = []
        self.since = 0
        self.raw = False
        self.chunk = 70
        self.clip = N < 64       # literals must fit the precision

    # ------------------------------------------------------------ script
    def init(self):
        self.lines.append("init raw" if self.raw else "init")
        self.since = 0

    def room(self, n):
        if not self.lines or self.since + n > self.chunk:
            self.init()

    def emit(self, s):
        self.lines.append(s)
        self.since += 1

    def load(self, d, v):
        if self.N < 96 or self.M < 96:       # some generators are written with larger numbers in mind
            w = self.M if 8 <= d <= 11 else self.N
            v = (abs(v) % (1 << w) or (1 if v else 0)) * (-1 if v < 0 else 1)
        self.emit("load d=%d k=%s" % (d, hx(v)))

    def count(self, n):
        return max(1, int(n * self.scale))

    # ------------------------------------------------------------ numbers
    def nat(self, W=None):
        W = W or self.N
        r = self.r
        n = W // 32
        k = r.randrange(16)
        if k == 0:
            v = r.choice([0, 1, 2, 3, 0xff, 0x100, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 32) + 1,
                          (1 << 63), (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 63) - 1, 10, 16, 8, 7])
        elif k == 1:
            e = r.randrange(W)
            v = (1 << e) + r.choice([-1, 0, 1])
        elif k == 2:
            v = (1 << W) - 1 - r.choice([0, 0, 1, 2, 3, r.randrange(1 << 32)])
        elif k in (3, 4, 5):
            v = 0
            for i in range(r.randint(1, n)):
                v |= r.choice(EDGE_BLOCKS) << (32 * i)
        elif k == 6:
            # a run of ones
            a, b = sorted((r.randrange(W + 1), r.randrange(W + 1)))
            v = (1 << b) - (1 << a)
        elif k == 7:
            # edge blocks with one random block
            v = 0
            for i in range(n):
                v |= r.choice(EDGE_BLOCKS) << (32 * i)
            j = r.randrange(n)
            v = v & ~(0xffffffff << (32 * j)) | r.getrandbits(32) << (32 * j)
        elif k == 8:
            v = r.getrandbits(r.randint(1, W))
        elif k == 9:
            v = 0
            for _ in range(r.randint(1, 4)):
                v |= 1 << r.randrange(W)
        elif k == 10:
            # whole-block boundary
            v = (1 << (32 * r.randint(1, n))) - r.choice([0, 1, 2])
        elif k == 11:
            # a few blocks somewhere, the others zero (or all ones)
            v = 0
            for i in r.sample(range(n), r.randint(1, min(n, 3))):
                v |= (r.choice(EDGE_BLOCKS) or r.getrandbits(32)) << (32 * i)
            if r.random() < 0.3:
                v ^= (1 << W) - 1
        elif k == 13:
            # blocks that repeat or complement one another
            x, y = r.choice([0x80000000, 1, 0xffffffff, r.getrandbits(32)]), r.getrandbits(32)
            c = [0, 0, x, x, (1 << 32) - x & 0xffffffff, x ^ 0xffffffff, y]
            v = sum(r.choice(c) << (32 * i) for i in range(r.randint(1, n)))
            if r.random() < 0.15 and n > 1:
                v = self.cancelling(n) << (32 * r.randrange(n - 1)) if r.random() < 0.5 else self.cancelling(n)
        elif k == 12 and W <= 2048:
            v = self.digits(W, r.choice([8, 10, 10, 16]))
        else:
            v = r.getrandbits(W)
        return max(0, v) % (1 << W)

    def cancelling(self, n):
        """a nonzero number of n >= 2 blocks that a weighted sum of the blocks does not tell from zero"""
        r = self.r
        m = r.choice([1, 1, 2, 3, 3, 5, 7, 10, 16, 17, 31, 31, 33, 37, 255, 256, 257, 65599, 0xffffffff])
        x = r.choice([1, 1, 2, 3, r.getrandbits(32) | 1])
        i = r.randrange(n - 1)
        lo, hi = (x, -m * x % (1 << 32)) if r.random() < 0.5 else (-m * x % (1 << 32), x)
        return (lo | hi << 32) << (32 * i)

    def digits(self, W, base):
        """a number below 2^W with runs of zeros, nines and the like in its digits"""
        r = self.r
        n = max(1, int(W / math.log2(base)))
        n = r.choice([n + 1, n, n - 1, r.randint(1, n), r.randint(1, n)])
        g = r.choice([1, 2, 3, 4, 6, 8, 9, 9, 10, 16, 18, 19, 19, 20, 11, 7])       # groups of g digits
        top = base ** g
        v, k = 0, 0
        while k < n:
            c = r.randrange(9)
            x = (0 if c < 3 else top - 1 if c == 3 else 1 if c == 4 else base ** r.randrange(g) if c == 5 else r.randrange(base ** r.randint(1, g)) if c == 6 else
                 top // base if c == 7 else r.randrange(top))
            v = v * top + x
            k += g
        v //= base ** (k - n if k > n and r.random() < 0.5 else 0)
        if r.random() < 0.4:        # trailing zeros
            z = r.randint(1, n)
            v = v // base ** z * base ** z
        while v >= 1 << W:
            v %= base ** r.randint(1, n) if r.random() < 0.5 else 1 << W
        return v

    def near(self, a, W=None):
        """a number related to a"""
        W = W or self.N
        r = self.r
        n = W // 32
        k = r.randrange(9)
        if k == 0:
            v = a
        elif k == 1:
            v = a + r.choice([-1, 1, -2, 2])
        elif k == 2:
            v = (1 << W) - a
        elif k == 3:
            v = (1 << W) - a + r.choice([-1, 1])
        elif k == 4:
            j = r.randrange(n)
            v = a ^ (r.choice([1, 0x80000000, 0xffffffff, r.getrandbits(32) | 1]) << (32 * j))
        elif k == 5:
            v = a ^ (1 << r.randrange(W))
        elif k == 6:
            v = a >> r.choice([1, 31, 32, 33, r.randrange(W)])
        elif k == 7:
            v = a << r.choice([1, 31, 32, 33, r.randrange(W)])
        else:
            v = ~a
        return v % (1 << W)

    def pair(self, W=None):
        a = self.nat(W)
        b = self.near(a, W) if self.r.random() < 0.4 else self.nat(W)
        if self.r.random() < 0.5:
            a, b = b, a
        return a, b

    def ulit(self, t=None):
        r = self.r
        t = t or r.choice(list(UTYPES))
        w = UTYPES[t]
        c = [0, 1, 2, 3, 7, 10, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w // 2)), (1 << (w // 2)) - 1]
        if w == 64:
            c += [0xffffffff, 0x100000000, 0x100000001, 0xffffffff00000000, 0xffffffff00000001, 0x80000000, 0x1ffffffff]
        k = r.choice(c) if r.random() < 0.6 else r.getrandbits(r.randint(1, w))
        return t, k % (1 << self.N) if self.clip else k

    def ilit(self, t=None):
        """a literal of any signed or unsigned type"""
        r = self.r
        t = t or r.choice(list(STYPES) + list(UTYPES))
        if t in UTYPES:
            return self.ulit(t)
        w = STYPES[t]
        c = [0, 1, -1, 2, -2, 10, -10, (1 << (w - 1)) - 1, -(1 << (w - 1)), -(1 << (w - 1)) + 1]
        if w == 64:
            c += [0xffffffff, -0xffffffff, 1 << 32, -(1 << 32), 1 << 31, -(1 << 31)]
        v = r.choice(c) if r.random() < 0.6 else r.getrandbits(r.randint(1, w - 1)) * r.choice([1, -1])
        if self.clip:
            v = abs(v) % (1 << self.N) * (-1 if v < 0 else 1)
        return t, v

    def sgn(self, v):
        return v * self.r.choice([1, -1])

    def ureg(self):
        return self.r.randrange(4)

    def sreg(self):
        return self.r.randrange(4, 8)

    # ------------------------------------------------------------ unsigned binary
    def ubin(self, op, a, b, f=None):
        r = self.r
        f = f or r.choice(["rr", "=r"])
        self.room(4)
        ra, rb, rd = self.ureg(), self.ureg(), self.ureg()
        if f == "=r":
            rd = ra
        same = ra == rb
        self.load(ra, a)
        if not same:
            self.load(rb, b)
        elif op in ("div", "mod") and a == 0:
            self.load(ra, b)
        if f == "=r":
            self.emit("%s f=%s d=%d b=%d" % (op, f, rd, rb))
        else:
            self.emit("%s f=%s d=%d a=%d b=%d" % (op, f, rd, ra, rb))

    def ubini(self, op, a, t, k, f):
        """with a built-in operand"""
        self.room(3)
        ra, rd = self.ureg(), self.ureg()
        self.load(ra, a)
        if f == "=i":
            self.emit("%s f=%s d=%d t=%s k=%s" % (op, f, ra, t, hx(k)))
        else:
            self.emit("%s f=%s d=%d a=%d t=%s k=%s" % (op, f, rd, ra, t, hx(k)))

    def sbin(self, op, a, b, f=None):
        """a op b on signed registers; the caller has made sure that the result fits"""
        r = self.r
        f = f or r.choice(["rr", "=r"])
        self.room(4)
        ra = self.sreg()
        if a == b and r.random() < 0.5:
            rb = ra
        else:
            rb = r.choice([x for x in range(4, 8) if x != ra])
        rd = ra if f == "=r" else self.sreg()
        self.load(ra, a)
        if rb != ra:
            self.load(rb, b)
        if f == "=r":
            self.emit("%s f=%s d=%d b=%d" % (op, f, rd, rb))
        else:
            self.emit("%s f=%s d=%d a=%d b=%d" % (op, f, rd, ra, rb))

    def sbini(self, op, a, t, k, f):
        self.room(3)
        ra, rd = self.sreg(), self.sreg()
        self.load(ra, a)
        if f == "=i":
            self.emit("%s f=%s d=%d t=%s k=%s" % (op, f, ra, t, hx(k)))
        else:
            self.emit("%s f=%s d=%d a=%d t=%s k=%s" % (op, f, rd, ra, t, hx(k)))

    # ============================================================ properties
    def c01(self):
        self.clip = False
        r, N = self.r, self.N
        for _ in range(self.count(250)):
            a, b = self.pair()
            self.ubin(r.choice(["add", "sub"]), a, b)
        # carries and borrows that start at each block and run to each block
        n = N // 32
        for i in range(n):
            for j in ([i + 1, n] if n > 16 else range(i + 1, n + 1)):
                ones = (1 << (32 * j)) - (1 << (32 * i))
                self.ubin("add", ones | (r.getrandbits(32 * i) if i else 0), 1 << (32 * i))
                self.ubin("sub", (1 << (32 * j)) % (1 << N), 1 << (32 * i))
                if r.random() < 0.3:
                    t, k = self.ulit()
                    self.ubini("add", ones | ((1 << (32 * i)) - 1), t, k, r.choice(["ri", "=i", "ir"]))
        for _ in range(self.count(200)):
            t, k = self.ulit()
            a = self.nat() if r.random() < 0.6 else ((1 << r.choice([32, 64, 96, N])) - 1 - r.choice([0, k, max(0, k - 1)])) % (1 << N)
            op = r.choice(["add", "sub"])
            self.ubini(op, a, t, k, r.choice(["ri", "rc", "ir", "=i"]))
        for _ in range(self.count(60)):
            self.room(3)
            d, a = self.ureg(), self.ureg()
            self.load(a, self.nat())
            self.emit("%s d=%d a=%d" % (r.choice(["neg", "neg", "pos"]), d, a))
        steps = [0, 1, (1 << N) - 1, (1 << N) - 2] + [(1 << (32 * i)) + o for i in range(1, n) for o in (-1, 0)]
        for v in (steps if len(steps) < 30 else steps[:4] + r.sample(steps[4:], 26)):
            for op in ("inc", "dec"):
                self.room(3)
                d = self.ureg()
                self.load(d, v)
                self.emit("%s f=%s d=%d" % (op, r.choice(["pre", "post"]), d))
        for _ in range(self.count(40)):
            self.room(8)
            d = self.ureg()
            self.load(d, self.nat())
            for _ in range(5):
                self.emit("%s f=%s d=%d" % (r.choice(["inc", "dec"]), r.choice(["pre", "post"]), d))

    def c02(self):
        self.clip = False
        r, N = self.r, self.N
        for _ in range(self.count(400)):
            a, b = self.pair()
            k = r.randrange(5)
            if k == 0:      # sizes that add up to about the precision
                e = r.randrange(1, N)
                a, b = self.nat(32 * max(1, e // 32)), self.nat(32 * max(1, (N - e) // 32))
            elif k == 1:    # full carry propagation
                a = (1 << r.randrange(1, N + 1)) - 1
                b = (1 << r.randrange(1, N + 1)) - 1
            self.ubin("mul", a, b)
        n = N // 32
        for i in range(n):      # every pair of block positions
            for j in range(n) if n <= 8 else r.sample(range(n), 4):
                self.ubin("mul", r.choice([1, 0xffffffff, 0x80000000, r.getrandbits(32)]) << (32 * i),
                          r.choice([1, 0xffffffff, 0x80000000, r.getrandbits(32)]) << (32 * j))
        for _ in range(self.count(250)):
            t, k = self.ulit()
            self.ubini("mul", self.nat(), t, k, r.choice(["ri", "rc", "ir", "=i"]))

    def quot(self, W=None):
        """n, d with d # 0, from n = q*d + r"""
        r = self.r
        W = W or self.N
        while True:
            k = r.randrange(6)
            if k == 0:
                n, d = self.pair(W)
            else:
                bd = r.randint(1, W)
                d = r.choice([(1 << bd) - 1, 1 << (bd - 1), r.getrandbits(bd), self.nat(W) >> (W - bd), (1 << bd) - r.randint(1, 5),
                              (1 << (bd - 1)) + r.randint(0, 3)]) % (1 << W)
                if d == 0:
                    continue
                qmax = ((1 << W) - 1) // d
                q = r.choice([0, 1, 2, qmax, max(0, qmax - 1), r.randint(0, qmax), r.getrandbits(max(1, qmax.bit_length())) & qmax,
                              (1 << max(0, qmax.bit_length() - 1))])
                rem = r.choice([0, 0, 1, d - 1, d // 2, r.randrange(d)])
                n = min((1 << W) - 1, q * d + rem % d)
            if d:
                return n, d

    def c03(self):
        r = self.r
        big = 1.0 if self.N <= 512 else 0.6
        for _ in range(self.count(320 * big)):
            n, d = self.quot()
            self.ubin(r.choice(["div", "mod"]), n, d)
        for _ in range(self.count(220 * big)):
            n, d = self.quot()
            self.room(4)
            ra, rb, q, m = r.sample(range(4), 4)
            f = r.choice(["out", "pair"])
            self.load(ra, n)
            if n == d:
                rb = r.choice([ra, rb])
            if rb != ra:
                self.load(rb, d)
            if f == "pair" and r.random() < 0.5:
                q, m = r.sample(range(4), 2)
            self.emit("dm f=%s d=%d d2=%d a=%d b=%d" % (f, q, m, ra, rb))
        for _ in range(self.count(200 * big)):
            t, k = self.ulit()
            f = r.choice(["ri", "rc", "=i", "ir"])
            a = self.nat()
            if f == "ir":
                a = r.choice([max(1, a), max(1, k), k + 1, max(1, k - 1), max(1, k // 3), max(1, a >> (self.N - r.randint(1, min(64, self.N))))])
            else:
                k = max(1, k)
                if r.random() < 0.3:
                    q = a // k
                    a = min((1 << self.N) - 1, q * k + r.choice([0, k - 1]))
            self.ubini(r.choice(["div", "mod"]), a, t, k, f)

    def c04(self):
        self.clip = False
        r, N = self.r, self.N
        for _ in range(self.count(450)):
            a, b = self.pair()
            self.ubin(r.choice(["and", "or", "xor"]), a, b)
        for i in range(0, N, 1 if N <= 256 else N // 128):    # every bit
            op = r.choice(["and", "or", "xor"])
            a, b = r.choice([(1 << i, 1 << i), (1 << i, 0), ((1 << N) - 1, 1 << i), (((1 << N) - 1) ^ (1 << i), (1 << N) - 1)])
            self.ubin(op, a, b)
            if i % 4 == 0:
                self.room(2)
                ra, d = self.ureg(), self.ureg()
                self.load(ra, a)
                self.emit("not d=%d a=%d" % (d, ra))
        for _ in range(self.count(250)):
            t, k = self.ulit()
            self.ubini(r.choice(["and", "or", "xor"]), self.nat(), t, k, r.choice(["ri", "rc", "ir", "=i"]))
        for _ in range(self.count(60)):
            self.room(3)
            d, a = self.ureg(), self.ureg()
            self.load(a, self.nat())
            self.emit("not d=%d a=%d" % (d, a))

    def c05(self):
        r, N = self.r, self.N

        def shift(op, a, n, t=None, f=None):
            ok = [x for x in UTYPES if n < (1 << UTYPES[x])]
            t = t or r.choice(ok)
            self.room(3)
            ra, d = self.ureg(), self.ureg()
            self.load(ra, a)
            if (f or r.choice(["r", "="])) == "=":
                self.emit("%s f== d=%d t=%s n=%x" % (op, ra, t, n))
            else:
                self.emit("%s f=r d=%d a=%d t=%s n=%x" % (op, d, ra, t, n))
        if N <= 512:
            amounts = list(range(N))
        else:
            amounts = sorted({32 * i + o for i in range(N // 32 + 1) for o in (-1, 0, 1, r.randrange(32)) if 0 <= 32 * i + o < N})
            amounts = [k for k in amounts if r.random() < 400 / len(amounts)] + [0, 1, 31, 32, 33, N - 33, N - 32, N - 31, N - 1]
        for k in amounts:
            a = r.choice([(1 << N) - 1, r.getrandbits(N), self.nat(), r.getrandbits(N) | 1 | 1 << (N - 1)])
            shift("shl", a, k)
            shift("shr", a if r.random() < 0.5 else r.getrandbits(N) | 1 << (N - 1), k)
        for k in [N, N + 1, N + 31, N + 32, 2 * N, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 64) - 1,
                  (1 << 32) + N - 1, (1 << 32) + 32]:
            for op in ("shl", "shr"):
                for t in [x for x in UTYPES if k < (1 << UTYPES[x])]:
                    if k >= N or k < N:
                        shift(op, self.nat(), k, t)
        for _ in range(self.count(150)):
            shift(r.choice(["shl", "shr"]), self.nat(), r.choice([r.randrange(N), 32 * r.randrange(N // 32), r.randrange(32)]))
        for _ in range(self.count(20)):     # several shifts in a row
            self.room(9)
            d = self.ureg()
            self.load(d, self.nat())
            for _ in range(6):
                self.emit("%s f== d=%d t=u32 n=%x" % (r.choice(["shl", "shr"]), d, r.choice([1, 31, 32, 33, r.randrange(N)])))

    def c06(self):
        self.clip = False
        r, N, M = self.r, self.N, self.M
        for _ in range(self.count(220)):
            a, b = self.pair()
            self.room(3)
            ra = self.ureg()
            rb = self.ureg()
            self.load(ra, a)
            if rb != ra:
                self.load(rb, b)
            self.emit("cmp f=rr a=%d b=%d" % (ra, rb))
        for _ in range(self.count(250)):    # across precisions
            lo, hi = min(N, M), max(N, M)
            k = r.randrange(5)
            a = self.nat(N)
            if k == 0:
                b = self.nat(M)
            elif k == 1:
                b = a % (1 << M)
            elif k == 2:
                b = self.near(a % (1 << lo), lo)
            else:
                # equal or nearly equal in the common blocks, different above
                lowpart = r.choice([a % (1 << lo), self.near(a % (1 << lo), lo), self.nat(lo)])
                high = r.choice([0, 1, 1 << 31, self.nat(hi - lo), 1 << (hi - lo - 1)] + [self.cancelling((hi - lo) // 32) for _ in range(3 if hi - lo > 32 else 0)]) << lo
                if N == hi:
                    a, b = (a % (1 << lo)) | high, lowpart
                else:
                    b = lowpart | high
            self.room(3)
            ra, rb = self.ureg(), r.choice([8, 9])
            self.load(ra, a)
            self.load(rb, b)
            if r.random() < 0.5:
                self.emit("cmp f=rr a=%d b=%d" % (ra, rb))
            else:
                self.emit("cmp f=rr a=%d b=%d" % (rb, ra))
        for _ in range(self.count(300)):
            t, k = self.ulit()
            a = r.choice([k, k + 1, max(0, k - 1), k | 1 << 32, k | 1 << 64, k + (1 << 64), (k + (1 << (N - 1))) % (1 << N), k ^ 1, k << 32,
                          self.nat(), k % (1 << 32), k ^ (1 << 63)]) % (1 << N)
            self.room(2)
            ra = self.ureg()
            self.load(ra, a)
            self.emit("cmp f=%s a=%d t=%s k=%s" % (r.choice(["ri", "ri", "ir"]), ra, t, hx(k)))
        self.cmp_high(False)

    def cmp_high(self, signed):
        """built-in operands against numbers that agree with them in the low blocks and have bits somewhere above"""
        r, N = self.r, self.N
        n = N // 32
        for i in range(n) if n <= 16 else sorted(r.sample(range(n), 12)) + [1, 2, n // 2, n - 2, n - 1]:
            for t in (["u8", "u32", "u64", "i16", "i32", "i64"] if signed else ["u16", "u32", "u64"]):
                if i == 0 or i == 1 and t[1:] == "64":
                    continue
                t, k = self.ilit(t) if signed else self.ulit(t)
                hi = r.choice([1, 0x80000000, 0xffffffff, r.getrandbits(32) or 1]) << (32 * i)
                if i + 1 < n and r.random() < 0.3:
                    hi |= r.choice(EDGE_BLOCKS) << (32 * (i + 1))
                self.room(2)
                ra = self.sreg() if signed else self.ureg()
                m = (abs(k) | hi) % (1 << N)
                self.load(ra, (-m if (k < 0 or k == 0 and r.random() < 0.5) else m) if signed else m)
                self.emit("cmp f=%s a=%d t=%s k=%s" % (r.choice(["ri", "ri", "ir"]), ra, t, hx(k)))

    # signed operands whose sum / difference fits
    def spair(self):
        r, N = self.r, self.N
        a, b = self.pair()
        return self.sgn(a), self.sgn(b)

    def fits(self, v, W=None):
        return abs(v) < 1 << (W or self.N)

    def c07(self):
        r, N = self.r, self.N
        done = 0
        while done < self.count(420):
            a, b = self.spair()
            if r.random() < 0.15:
                b = r.choice([a, -a, 0])
            if r.random() < 0.05:
                a = 0
            op = r.choice(["add", "sub"])
            if not self.fits(a + b if op == "add" else a - b):
                a, b = (a + (a < 0)) // 2, (b + (b < 0)) // 2
                if not self.fits(a + b if op == "add" else a - b):
                    continue
            self.sbin(op, a, b)
            done += 1
        done = 0
        while done < self.count(250):
            t, k = self.ilit()
            a = self.sgn(self.nat())
            if r.random() < 0.3:
                a = r.choice([k, -k, k + 1, k - 1, -k - 1, 1 - k, 0])
            op = r.choice(["add", "sub"])
            f = r.choice(["ri", "rc", "ir", "=i"])
            z = a + k if op == "add" else a - k if f != "ir" else k - a
            if not (self.fits(z) and self.fits(a)):
                continue
            self.sbini(op, a, t, k, f)
            done += 1
        for v in [0, 1, -1, 2, -2] + [s * ((1 << (32 * i)) + o) for i in sorted(set(list(range(1, min(N // 32, 8))) + [N // 32 - 1])) for o in (-1, 0, 1) for s in (1, -1)] + [
                s * ((1 << N) - 2) for s in (1, -1)]:
            for op in ("inc", "dec"):
                self.room(2)
                d = self.sreg()
                self.load(d, v)
                self.emit("%s f=%s d=%d" % (op, r.choice(["pre", "post"]), d))
        for _ in range(self.count(30)):     # walks across zero
            self.room(12)
            d = self.sreg()
            v = r.randint(-3, 3)
            self.load(d, v)
            step = 1 if v < 0 else -1
            for _ in range(8):
                self.emit("%s f=%s d=%d" % (("inc" if step > 0 else "dec") if r.random() < 0.85 else r.choice(["inc", "dec"]),
                                            r.choice(["pre", "post"]), d))
        for _ in range(self.count(80)):
            self.room(3)
            a, d = self.sreg(), self.sreg()
            self.load(a, r.choice([0, self.sgn(self.nat()), self.sgn(self.nat())]))
            op = r.choice(["neg", "pos", "inv"])
            self.emit("inv d=%d" % a if op == "inv" else "%s d=%d a=%d" % (op, d, a))

    def c08(self):
        r, N = self.r, self.N
        done = 0
        while done < self.count(400):
            e = r.randint(0, N)
            a = self.nat() >> (N - e) if e else 0
            b = self.nat() >> e
            k = r.randrange(6)
            if k == 0:
                a = self.nat() >> (N // 2)
                b = a
            elif k == 1:
                a = r.choice([0, 1])
            if a * b >= 1 << N:
                continue
            if r.random() < 0.5:
                a, b = b, a
            self.sbin("mul", self.sgn(a), self.sgn(b))
            done += 1
        done = 0
        while done < self.count(350):
            t, k = self.ilit()
            a = self.nat() >> r.choice([0, abs(k).bit_length(), r.randrange(N), abs(k).bit_length()])
            if not self.fits(a * k):
                a = ((1 << N) - 1) // abs(k)
            self.sbini("mul", self.sgn(a), t, k, r.choice(["ri", "rc", "ir", "=i"]))
            done += 1

    def c09(self):
        r, N = self.r, self.N
        big = 1.0 if N <= 512 else 0.6
        for _ in range(self.count(330 * big)):
            n, d = self.quot()
            self.sbin(r.choice(["div", "mod"]), self.sgn(n), self.sgn(d))
        for _ in range(self.count(160 * big)):
            n, d = self.quot()
            n, d = self.sgn(n), self.sgn(d)
            self.room(5)
            ra, rb, q, m = r.sample(range(4, 8), 4)
            self.load(ra, n)
            if n == d:
                rb = r.choice([ra, rb])
            if rb != ra:
                self.load(rb, d)
            if r.random() < 0.4:
                self.load(q, self.sgn(self.nat()))
                self.load(m, self.sgn(self.nat()))
            self.emit("dm f=out d=%d d2=%d a=%d b=%d" % (q, m, ra, rb))
        for _ in range(self.count(300 * big)):
            t, k = self.ilit()
            f = r.choice(["ri", "rc", "=i", "ir"])
            a = self.nat()
            if f == "ir":
                a = r.choice([max(1, a), abs(k) or 1, abs(k) + 1, max(1, abs(k) - 1), max(1, abs(k) // 3), max(1, a >> (N - r.randint(1, min(64, N))))])
            else:
                if k == 0:
                    k = 1
                if r.random() < 0.4:
                    a = min((1 << N) - 1, (a // abs(k)) * abs(k) + r.choice([0, 0, abs(k) - 1]))
                if r.random() < 0.2:
                    a = r.randrange(0, abs(k))
            self.sbini(r.choice(["div", "mod"]), self.sgn(a), t, k, f)

    def c10(self):
        self.clip = False
        r, N, M = self.r, self.N, self.M
        for _ in range(self.count(220)):
            a, b = self.spair()
            if r.random() < 0.2:
                b = r.choice([a, -a, 0])
            self.room(3)
            ra, rb = self.sreg(), self.sreg()
            self.load(ra, a)
            if rb != ra:
                self.load(rb, b)
            self.emit("cmp f=rr a=%d b=%d" % (ra, rb))
        lo, hi = min(N, M), max(N, M)
        for _ in range(self.count(260)):
            k = r.randrange(5)
            a = self.nat(N)
            if k == 0:
                b = self.nat(M)
            elif k == 1:
                b = a % (1 << M)
            elif k == 2:
                b = self.near(a % (1 << lo), lo)
            else:
                lowpart = r.choice([a % (1 << lo), self.near(a % (1 << lo), lo), self.nat(lo), 0])
                high = r.choice([0, 1, 1 << 31, self.nat(hi - lo), 1 << (hi - lo - 1)] + [self.cancelling((hi - lo) // 32) for _ in range(3 if hi - lo > 32 else 0)]) << lo
                if N == hi:
                    a, b = (a % (1 << lo)) | high, lowpart
                else:
                    b = lowpart | high
            if r.random() < 0.7:
                s = r.choice([1, -1])
                a, b = s * a, s * b
            else:
                a, b = self.sgn(a), self.sgn(b)
            self.room(3)
            ra, rb = self.sreg(), r.choice([10, 11])
            self.load(ra, a)
            self.load(rb, b)
            self.emit("cmp f=rr a=%d b=%d" % ((ra, rb) if r.random() < 0.5 else (rb, ra)))
        for _ in range(self.count(330)):
            t, k = self.ilit()
            a = r.choice([k, k + 1, k - 1, -k, k + (1 << 64), k - (1 << 64), k ^ (1 << 32), k * 2, 0, self.sgn(self.nat()), -k - 1,
                          (k & 0xffffffff), -(abs(k) ^ (1 << 63)), (abs(k) | (1 << 64)) * (-1 if k < 0 else 1)])
            if not self.fits(a):
                a = 0
            self.room(2)
            ra = self.sreg()
            self.load(ra, a)
            self.emit("cmp f=%s a=%d t=%s k=%s" % (r.choice(["ri", "ri", "ir"]), ra, t, hx(k)))
        self.cmp_high(True)

    def c11(self):
        """zero results in every way they can arise, then everything that tells zeros apart"""
        r, N, M = self.r, self.N, self.M
        self.raw = True

        def probe(d):
            self.emit("qry a=%d" % d)
            self.emit("out a=%d base=%d up=0 sb=%d wide=%d bk=0" % (d, r.choice([8, 10, 16]), r.randrange(2), r.randrange(2)))
            t = r.choice(list(STYPES) + list(UTYPES))
            self.emit("cmp f=%s a=%d t=%s k=0" % (r.choice(["ri", "ir"]), d, t))
            z = r.choice([x for x in range(4, 8) if x != d])
            self.load(z, 0)
            self.emit("cmp f=rr a=%d b=%d" % (d, z))
            if r.random() < 0.5:
                self.emit("ucast a=%d d=%d" % (d, self.ureg()))
            else:
                # a zero as an operand
                y = r.choice([x for x in range(4, 8) if x not in (d, z)])
                self.load(y, self.sgn(max(1, self.nat())))
                q = r.randrange(6)
                if q == 0:
                    self.emit("add f=rr d=%d a=%d b=%d" % (z, d, y))
                elif q == 1:
                    self.emit("sub f=rr d=%d a=%d b=%d" % (z, d, y))
                elif q == 2:
                    self.emit("mul f=rr d=%d a=%d b=%d" % (z, d, y))
                elif q == 3:
                    self.emit("%s f=rr d=%d a=%d b=%d" % (r.choice(["div", "mod"]), z, d, y))
                elif q == 4:
                    self.emit("%s f=pre d=%d" % (r.choice(["inc", "dec"]), d))
                else:
                    self.emit("neg d=%d a=%d" % (z, d))
        for _ in range(self.count(260)):
            self.room(14)
            ra, rb, d, d2 = r.sample(range(4, 8), 4)
            v = self.sgn(max(1, self.nat()))
            k = r.randrange(15)
            if k == 0:
                self.load(ra, v); self.load(rb, -v)
                if r.random() < 0.5:
                    self.emit("add f==r d=%d b=%d" % (ra, rb)); d = ra
                else:
                    self.emit("add f=rr d=%d a=%d b=%d" % (d, ra, rb))
            elif k == 1:
                self.load(ra, v)
                rb2 = rb
                if r.random() < 0.5:
                    rb2 = ra
                else:
                    self.load(rb, v)
                if r.random() < 0.5:
                    self.emit("sub f==r d=%d b=%d" % (ra, rb2)); d = ra
                else:
                    self.emit("sub f=rr d=%d a=%d b=%d" % (d, ra, rb2))
            elif k == 2:
                s = r.choice([1, -1])
                self.load(d, s)
                self.emit("%s f=%s d=%d" % ("dec" if s > 0 else "inc", r.choice(["pre", "post"]), d))
            elif k == 3:
                self.load(ra, v); self.load(rb, 0)
                if r.random() < 0.3:
                    self.emit("mul f==r d=%d b=%d" % (ra, rb)); d = ra
                elif r.random() < 0.5:
                    self.emit("mul f=rr d=%d a=%d b=%d" % (d, rb, ra))
                else:
                    self.emit("mul f=rr d=%d a=%d b=%d" % (d, ra, rb))
            elif k == 4:
                t = r.choice(list(STYPES) + list(UTYPES))
                self.load(ra, v)
                f = r.choice(["ri", "rc", "ir", "=i"])
                if f == "=i":
                    self.emit("mul f==i d=%d t=%s k=0" % (ra, t)); d = ra
                else:
                    self.emit("mul f=%s d=%d a=%d t=%s k=0" % (f, d, ra, t))
            elif k == 5:    # exact remainder
                n, dv = self.quot()
                n = (n // dv) * dv
                self.load(ra, self.sgn(n)); self.load(rb, self.sgn(dv))
                if r.random() < 0.5:
                    self.emit("mod f==r d=%d b=%d" % (ra, rb)); d = ra
                else:
                    self.emit("mod f=rr d=%d a=%d b=%d" % (d, ra, rb))
            elif k == 6:    # exact remainder by a built-in
                t, kk = self.ilit()
                kk = kk or 1
                n = (self.nat() // abs(kk)) * abs(kk)
                self.load(ra, self.sgn(n))
                f = r.choice(["ri", "rc", "=i"])
                if f == "=i":
                    self.emit("mod f==i d=%d t=%s k=%s" % (ra, t, hx(kk))); d = ra
                else:
                    self.emit("mod f=%s d=%d a=%d t=%s k=%s" % (f, d, ra, t, hx(kk)))
            elif k == 7:    # quotient below one
                n, dv = self.quot()
                n %= dv
                self.load(ra, self.sgn(n)); self.load(rb, self.sgn(dv))
                self.emit("div f=rr d=%d a=%d b=%d" % (d, ra, rb))
            elif k == 8:    # quotient below one, built-in
                t, kk = self.ilit()
                kk = kk or 1
                self.load(ra, self.sgn(r.randrange(abs(kk))))
                self.emit("div f==i d=%d t=%s k=%s" % (ra, t, hx(kk))); d = ra
            elif k == 9:    # divide()
                n, dv = self.quot()
                n = r.choice([n % dv, n // dv * dv, 0])
                self.load(ra, self.sgn(n)); self.load(rb, self.sgn(dv))
                self.load(d, self.sgn(max(1, self.nat()))); self.load(d2, self.sgn(max(1, self.nat())))
                self.emit("dm f=out d=%d d2=%d a=%d b=%d" % (d, d2, ra, rb))
                if n // dv != 0 and n % dv == 0:
                    d = d2
            elif k == 10:   # narrowing cast to nothing
                if M < N:
                    self.load(ra, self.sgn(max(1, r.getrandbits(N - M)) << M))
                    self.load(10, self.sgn(5))
                    self.emit("pcast a=%d d=10" % ra)
                    self.emit("pcast a=10 d=%d" % d)
                else:
                    self.load(10, self.sgn(max(1, r.getrandbits(M - N) if M > N else 1) << N) if M > N else 0)
                    self.load(d, self.sgn(7))
                    self.emit("pcast a=10 d=%d" % d)
            elif k == 11:   # from unsigned zero
                u = self.ureg()
                self.load(u, 0); self.load(d, self.sgn(9))
                self.emit("fromu a=%d d=%d" % (u, d))
            elif k == 12:   # text
                txt = r.choice(["-0", "0", "--0x0", "-0b000", "-0o0", "", "-", "abc", "-x0", "- 0 0", "-0x" + "0" * 9,
                                hx((1 << N) * r.randint(1, 5)).join(["-0x", ""]), str(-(1 << N))])
                self.load(d, self.sgn(3))
                self.emit("parse d=%d f=%s wide=%d x=%s" % (d, r.choice(["ptr", "str", "sv", "strm"]), r.randrange(2), ",".join(str(ord(c)) for c in txt)))
            elif k == 13:   # square root, power of two out of range
                self.load(ra, r.choice([0, v if v < 0 else -v]))
                if r.random() < 0.6:
                    self.emit("sqrt a=%d d=%d" % (ra, d))
                else:
                    self.emit("pow2 d=%d n=%x" % (d, r.choice([N, N + 1, 1 << 40])))
            else:
                t = r.choice(list(STYPES))
                self.load(d, self.sgn(4))
                self.emit("cons f=%s d=%d t=%s k=0" % (r.choice(["ctor", "asg"]), d, t))
            probe(d)

    def euclid(self, g=None):
        """a pair built from a chosen sequence of partial quotients, times a chosen common factor"""
        r, N = self.r, self.N
        g = g if g is not None else r.choice([1, 1, 2, 3, 1 << r.randrange(N), r.getrandbits(r.randint(1, N)) | 1,
                                              (r.getrandbits(32) | 1) << r.randrange(N), (1 << 32 * r.randint(0, N // 32 - 1))])
        g = max(1, g % (1 << N))
        x, y = r.choice([(0, 1), (1, 1), (1, 2)])
        stop = r.choice([N, N, r.randint(2, N)])
        style = r.randrange(5)
        while True:
            q = [1, r.randint(1, 3), r.getrandbits(32) + 1, 1 << r.randrange(1, 40),
                 r.choice([1, 2, 0xffffffff, 1 << 32, (1 << 32) + 1, r.getrandbits(r.randint(1, 70)) + 1])][style]
            x, y = y, q * y + x
            if (y * g).bit_length() > stop or y >= 1 << N:
                break
            if r.random() < 0.01 or (style and r.random() < 0.04):
                break
        if y * g >= 1 << N:
            x, y = y - x * ((y - 1) // x) if x else 0, x
        return x * g % (1 << N), y * g % (1 << N)

    def c12(self):
        r, N = self.r, self.N
        n = self.count(500 if N <= 256 else 240 if N <= 512 else 60 if N <= 1024 else 14)
        for i in range(n):
            k = r.randrange(10)
            op = r.choice(["gcd", "gcd", "xgcd", "xgcd", "lcm", "lcm"])
            if k == 0:
                a, b = self.pair()
            elif k == 1:
                a, b = r.choice([(0, 0), (0, self.nat()), (self.nat(), 0), (1, self.nat()), (self.nat(), 1)])
            elif k == 2:    # common factor
                g = self.nat() >> (N // 2)
                a = (g * (self.nat() >> (N // 2))) % (1 << N)
                b = (g * (self.nat() >> (N // 2))) % (1 << N)
            elif k == 3:    # consecutive Fibonacci numbers: the longest run
                x, y = 1, 1
                stop = r.randint(2, N)
                while y.bit_length() < stop:
                    x, y = y, x + y
                a, b = x, y % (1 << N)
            elif k == 4:    # one divides the other
                a = self.nat() >> r.randrange(N)
                b = a * r.randint(0, ((1 << N) - 1) // a if a else 5) % (1 << N)
            elif k == 5:
                a = self.nat(); b = a
            elif k == 6:    # powers of two in one, the other or both
                sa, sb = r.randrange(N), r.randrange(N)
                if r.random() < 0.4:
                    sb = sa
                a = ((r.getrandbits(N - sa) | 1) << sa) % (1 << N)
                b = ((r.getrandbits(N - sb) | 1) << sb) % (1 << N)
                if r.random() < 0.2:
                    a = 1 << sa
            else:
                a, b = self.euclid()
            if op == "lcm" and r.random() < 0.6:
                # a multiple just below 2^N, made of coprime parts around a common factor
                while True:
                    bg = r.randrange(0, N - 4)
                    g = r.getrandbits(bg) | 1 << bg if r.random() < 0.7 else 1 << bg
                    bx = r.randint(1, N - g.bit_length() - 2)
                    x = r.getrandbits(bx) | 1
                    if r.random() < 0.3:
                        x <<= r.randrange(0, N - g.bit_length() - x.bit_length())
                    room = ((1 << N) - 1) // (g * x)
                    y = r.choice([room, room, max(1, room - 1), max(1, room >> 1), r.randint(1, room)])
                    while math.gcd(x, y) > 1 and y > 1:
                        y -= 1
                    if g * x * y < 1 << N:
                        break
                a, b = g * x, g * y
            if r.random() < 0.5:
                a, b = b, a
            if N > 4096:        # few steps, they are slow
                cut = max(0, max(a, b).bit_length() - r.randint(100, 256))
                a, b = a >> cut << cut, b >> cut << cut
            self.room(4)
            ra, rb, x, y = r.sample(range(4), 4)
            if op == "lcm":
                g = math.gcd(a, b)
                while g and a // g * b >= 1 << N:
                    a >>= 16; b >>= 16
                    g = math.gcd(a, b)
            if a == b and r.random() < 0.5:
                rb = ra
            self.load(ra, a)
            if rb != ra:
                self.load(rb, b)
            if op == "xgcd":
                self.emit("xgcd d=%d d2=%d d3=%d a=%d b=%d" % (r.choice([ra, rb]), x, y, ra, rb))
            else:
                self.emit("%s d=%d a=%d b=%d" % (op, self.ureg(), ra, rb))

    def c13(self):
        r, N, M = self.r, self.N, self.M
        n = self.count(420 if N <= 128 else 240 if N <= 256 else 70 if N <= 512 else 16 if N <= 1024 else 3)
        for i in range(n):
            half = N // 2
            mb = r.choice([half, half, half - 1, r.randint(1, half), r.randint(1, half)])
            m = r.choice([r.getrandbits(mb), (1 << mb) - 1, 1 << (mb - 1), r.getrandbits(mb) | 1, (1 << mb)])
            if r.random() < 0.08:
                m = r.choice([1, 1, 2, 3])
            m = max(1, m)
            if (m - 1) ** 2 >= 1 << N:
                m = 1 << half
            if r.random() < 0.15:       # a modulus with squares in it, a base that shares factors with it
                q = r.getrandbits(r.randint(2, max(2, half // 3))) | 1
                m = max(1, q * q * r.choice([1, 2, 4, q]) % (1 << half))
                b = r.choice([q, 2 * q, q * q, m // q, q * r.getrandbits(30)]) % (1 << N)
            else:
                b = r.choice([self.nat(), self.nat() % m, 0, 1, m, m - 1, m + 1, 2, self.nat() % m, (1 << N) - 1,
                              m * r.getrandbits(20), m * r.getrandbits(half) + r.getrandbits(8)]) % (1 << N)
            f = r.choice(["m", "t", "x", "x"])
            W = M if f == "x" else N
            pmax = W if N <= 256 else min(W, 96) if i % 3 else min(W, 256)
            p = r.choice([0, 1, 2, 3, r.getrandbits(r.randint(1, 40)), r.getrandbits(r.randint(1, pmax)), (1 << r.randint(1, pmax)) - 1,
                          1 << r.randrange(pmax), r.getrandbits(pmax)])
            if r.random() < 0.1:
                p = 1 << r.choice([31, 32, 33, 63, 64, pmax - 1])
            p %= 1 << W
            self.room(5)
            ra, rp, rm = r.sample(range(4), 3)
            self.load(ra, b)
            self.load(rm, m)
            if f == "x":
                rp = r.choice([8, 9])
            self.load(rp, p)
            if f != "x" and r.random() < 0.1 and b == p:
                rp = ra
            self.emit("powm f=%s d=%d a=%d p=%d m=%d" % (f, self.ureg(), ra, rp, rm))

    def c14(self):
        r, N = self.r, self.N
        for k in (range(N + 3) if N <= 512 else r.sample(range(N), 150) + [0, 1, 31, 32, N - 1, N, N + 1]):
            self.room(3)
            s = r.random() < 0.5
            d = self.sreg() if s else self.ureg()
            self.load(d, 5)
            self.emit("pow2 d=%d n=%x" % (d, k))
        for k in [N + 31, N + 32, 2 * N, 8 * N, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 37) + 5, 1 << 63, (1 << 64) - 1]:
            for d in (0, 5):
                self.room(3)
                self.load(d, 5)
                self.emit("pow2 d=%d n=%x" % (d, k))
        sq = []
        for e in range(0, N // 2 + 1, 1 if N <= 256 else max(1, N // 128)):
            for o in (-1, 0, 1):
                root = max(0, (1 << e) + o)
                sq += [root * root + x for x in (-1, 0, 1, 2 * root)]
        r.shuffle(sq)
        big = 1.0 if N <= 256 else 0.6 if N <= 512 else 0.2 if N <= 1024 else 0.05
        sq = sq[:self.count(180 * big)]
        for _ in range(self.count(170 * big)):
            k = r.randrange(4)
            if k == 0:
                sq.append(self.nat())
            elif k == 1:
                root = self.nat(32 * max(1, N // 64)) % (1 << (N // 2))
                sq.append(root * root + r.choice([-1, 0, 2 * root, 2 * root + 1]))
            elif k == 2:
                root = r.getrandbits(r.randint(1, N // 2))
                sq.append(root * root + r.choice([-1, 0, 2 * root]))
            else:
                sq.append(self.nat() >> r.randrange(N))
        sq += [0, 1, 2, 3, 4, (1 << N) - 1, (1 << N) - 2]
        for v in sq:
            v = max(0, v) % (1 << N)
            self.room(3)
            if r.random() < 0.3:
                a, d = self.sreg(), self.sreg()
                self.load(a, v if r.random() < 0.7 else -v)
            else:
                a, d = self.ureg(), self.ureg()
                self.load(a, v)
            self.emit("sqrt a=%d d=%d" % (a, d))

    def c15(self):
        r, N = self.r, self.N
        per = {"bit": (N, 1), "byte": (N // 8, 8), "blk": (N // 32, 32)}
        for fld, (cnt, w) in per.items():
            idx = list(range(cnt)) if cnt <= 512 else sorted(r.sample(range(cnt), 300) + [0, 31, 32, cnt - 1, cnt - 32])
            idx += [cnt, cnt + 1, cnt + 2, cnt + 3, cnt + 4, cnt + 31, cnt + 32, 2 * cnt, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 64) - 1,
                    (1 << 64) // w, (1 << 64) // w + 1]
            for n in idx:
                n %= 1 << 64
                if r.random() < 0.7:
                    d = self.ureg()
                    base = self.nat() if r.random() < 0.7 else r.choice([0, (1 << N) - 1])
                else:
                    # signed: keep the number nonzero whatever is written
                    d = self.sreg()
                    base = self.nat()
                    keep = 1 << r.randrange(N)
                    if n < cnt and keep >> (n * w) and (keep >> (n * w)) < (1 << w):
                        keep = 1 << (((n + 1) * w + 3) % N) if cnt > 1 else keep
                    base = self.sgn(base | keep)
                    if n < cnt and (abs(base) & ~(((1 << w) - 1) << (n * w))) == 0:
                        d, base = self.ureg(), abs(base)
                self.room(4)
                self.load(d, base)
                v = r.choice([0, (1 << w) - 1, r.getrandbits(w), 1, 1 << (w - 1)])
                self.emit("get%s a=%d n=%x" % (fld, d, n))
                self.emit("set%s d=%d n=%x v=%x" % (fld, d, n, v))
                self.emit("get%s a=%d n=%x" % (fld, d, r.choice([n, n, (n + 1) % (1 << 64), max(0, n - 1)])))

    def c16(self):
        r, N = self.r, self.N
        vals = [0]
        for k in (range(N) if N <= 512 else r.sample(range(N), 250) + [0, 7, 8, 31, 32, N - 1]):
            vals += [1 << k, (1 << k) | r.getrandbits(k) if k else 1]
        for i in range(N // 32):
            vals += [(1 << (32 * i)) * r.choice([1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0xffffffff])]
        vals += [self.nat() for _ in range(self.count(100))]
        for _ in range(self.count(40)):      # blocks that cancel out when they are added up, combined or folded
            x = r.choice([0x80000000, 0x80000000, 1, 0xffffffff, r.getrandbits(32) | 1])
            bl = [0] * (N // 32)
            at = r.sample(range(len(bl)), min(len(bl), r.choice([2, 2, 2, 4])))
            for j, i in enumerate(at):
                bl[i] = x if j % 2 == 0 else r.choice([x, x, (1 << 32) - x, x ^ 0xffffffff]) & 0xffffffff
            vals.append(sum(b << (32 * i) for i, b in enumerate(bl)))
        for v in vals:
            self.room(2)
            if r.random() < 0.55:
                a = self.ureg()
                self.load(a, v)
            else:
                a = self.sreg()
                self.load(a, self.sgn(v))
            self.emit("qry a=%d" % a)

    LITLEN = [1, 2, 3, 6, 11, 22, 35, 69]       # literal lengths the driver can build

    def numeral(self, v, base, upper=None):
        r = self.r
        if base == 10:
            s = str(v)
        else:
            s = {2: "{:b}", 8: "{:o}", 16: "{:x}"}[base].format(v)
        if base == 16:
            c = r.randrange(3) if upper is None else upper
            s = s.upper() if c == 1 else "".join(r.choice([ch, ch.upper()]) for ch in s) if c == 2 else s
        return s

    def c17(self):
        r, N = self.r, self.N

        def emit(txt, f=None):
            self.room(2)
            d = self.ureg() if r.random() < 0.5 else self.sreg()
            forms = ["ptr", "str", "strm", "sv", "svm"]
            if len(txt) in self.LITLEN:
                forms += ["lit"] * 3
            self.load(d, 5)
            self.emit("parse d=%d f=%s wide=%d x=%s" % (d, f or r.choice(forms), r.randrange(2), ",".join(str(ord(c)) for c in txt)))

        def prefix(base):
            return {2: r.choice(["0b", "0B"]), 8: r.choice(["0o", "0O"]), 16: r.choice(["0x", "0X"]), 10: ""}[base]
        for _ in range(self.count(420)):
            base = r.choice([2, 8, 10, 16, 16, 10])
            W = r.choice([N, N, N, N + 64, 64]) if N <= 512 else r.choice([N, 256, 256, 256, 256])
            v = self.nat(W) if W % 32 == 0 else r.getrandbits(W)
            if base == 2 and N > 256:
                v %= 1 << 256
            if r.random() < 0.25:
                v = self.digits(min(N, 512), base)
            digits = self.numeral(v, base)
            k = r.randrange(8)
            if k == 0:      # leading zeros
                digits = "0" * r.randint(1, 9) + digits if base != 10 else r.choice(["00", "000", "0"]) + digits
            if r.random() < 0.35:    # separators
                seps = "'_ ,.;|-+zZ%" if base == 16 else "'_ ,.;-abcxyz89" if base == 8 else "'_ ,.-23456789ax" if base == 2 else "'_ ,.-abcdefxABCDEF"
                # what lies next to the digits in the character set
                near = "/:@G`g" if base == 16 else "/8:@A`a" if base == 8 else "/2:@A`a" if base == 2 else "/:;?@A`a~"
                step = r.randint(1, 5)
                one = r.choice(seps + near)
                mix = r.random() < 0.4
                digits = "".join(digits[i:i + step] + (r.choice(seps + near * 3) if mix else one) for i in range(0, len(digits), step))
            lead = r.choice(["", "", "", "-", "--", "---", "+", " ", "  -", "$ -", "(-", "#", "- -"])
            trail = r.choice(["", "", "", "", "-", " ", ")", "ul", "\n"])
            emit(lead + prefix(base) + digits + trail)
        for txt in ["", "0", "-0", "0x", "0b", "0o", "-0x", "x", "-", "+", "0x0", "0xg", "0b2", "0o8", "00x1", "x10", "0y12", "0 x12", "abc", "a1b2", "0b0b11",
                    "0x0x12", "0o0o17", "-x-1", "9", "09", "010", "0B101", "0O17", "0XfF", "0xFf", "1e5", "--1", "-1-", "1-", "0", "00", "000", "~!@", "10", "0x1", "1",
                    "0b1", "0b", "0o7", "12345", "0x123456789", "0b10101010101", "0o1234567", "1234567890123456789012", "0x12345678901234567890123456789abcd",
                    "-1234567890123456789012345678901234", "0b" + "10" * 33 + "1", "0x" + "f" * 67, "-" + "9" * 68]:
            emit(txt)
            if len(txt) in self.LITLEN:
                emit(txt, "lit")
        for _ in range(self.count(60)):     # noise
            n = r.choice(self.LITLEN + [r.randint(0, 40)])
            emit("".join(r.choice("0123456789abcdefABCDEFxXoObB-+_ '.,zZ") for _ in range(n)))
        for v in [(1 << N) - 1, 1 << N, (1 << N) + 1, (1 << N) + (1 << 32), 1 << (N - 1), (1 << (N + 32)) - 1]:
            for base in ((2, 8, 10, 16) if N <= 512 else (10, 16)):
                for lead in ("", "-"):
                    emit(lead + prefix(base) + self.numeral(v, base))

    def c18(self):
        r, N = self.r, self.N
        vals = [0, 1, 7, 8, 9, 10, 15, 16, 17, (1 << N) - 1, 1 << (N - 1), (1 << 32) - 1, 1 << 32, (1 << 32) + 1]
        e10 = 1
        while e10 < 1 << N:
            vals += [e10, e10 - 1]
            e10 *= 10 ** max(1, N // 120)
        for i in range(N // 32):     # zero blocks and blocks with leading zeros in the middle
            vals += [1 << (32 * i), (1 << (N - 1)) | (r.getrandbits(r.randint(1, 31)) << (32 * i)), 1 << max(0, 32 * i - 4), 0xfffffff << (32 * i) & ((1 << N) - 1)]
        if len(vals) > 90:
            vals = r.sample(vals, 90)
        vals += [0, (1 << N) - 1]
        vals += [self.nat() for _ in range(self.count(160))]
        vals += [self.digits(N, r.choice([10, 10, 8])) for _ in range(self.count(70 if N <= 1024 else 20))]
        if N > 1024:
            vals = r.sample(vals, min(len(vals), self.count(60)))
        for v in vals:
            for base in (r.sample([8, 10, 16], 2) if N <= 512 else [r.choice([8, 10, 16])]):
                if N > 2048 and base != 16 and (N > 4096 or r.random() < 0.9):     # slow
                    v %= 1 << 1500
                self.room(3)
                s = r.random() < 0.5
                a, d = (self.sreg(), self.sreg()) if s else (self.ureg(), self.ureg())
                self.load(a, self.sgn(v) if s else v)
                sb = r.randrange(2)
                st = "" if r.random() < 0.5 else " adj=%d fill=%d prec=%d extra=%d" % (
                    r.randrange(4), r.choice([32, 42, 48, 35]), r.choice([6, 0, 3, 17]), r.choice([0, 1, 2, 4, 8, r.randrange(64)]))
                self.emit("out a=%d d=%d base=%d up=%d sb=%d wide=%d bk=%d%s" % (a, d, base, r.randrange(2), sb, r.randrange(2),
                                                                              1 if (base == 10 or sb) and r.random() < 0.8 else 0, st))
                if r.random() < 0.3:
                    self.outf(a, v, base)

    def outf(self, a, v, base):
        """insertion into a destination that fails after some characters"""
        r = self.r
        n = len(self.numeral(abs(v), base)) + 3
        self.emit("outf a=%d base=%d up=%d sb=%d wide=%d cap=%d adj=%d fill=%d prec=%d extra=%d" % (
            a, base, r.randrange(2), r.randrange(2), r.randrange(2), r.choice([0, 1, 2, 3, max(0, n - 5), n - 4, n - 3, n - 2, n - 1, n, n + 9, r.randint(0, n), r.randint(0, n)]),
            r.randrange(4), r.choice([32, 42, 48, 35]), r.choice([6, 0, 3, 17]), r.choice([0, 0, 1, 2, 4, 8, r.randrange(64)])))

    def big(self, big):
        """the argument of readBinary / writeBinary; big-endian may be left out"""
        return "" if big and self.r.random() < 0.4 else " big=%d" % big

    def c19(self):
        r, N = self.r, self.N

        def emit(v, s, base, up, sb, wide, cap):
            self.room(2)
            a = self.sreg() if s else self.ureg()
            self.load(a, v if s else abs(v))
            self.emit("gstr a=%d base=%d up=%d%s wide=%d cap=%d" % (a, base, up, "" if not sb and r.random() < 0.4 else " sb=%d" % sb, wide, cap))
        vals = [0, 0, 1, 7, 8, 9, 10, 15, 16, 255, 256, (1 << 32) - 1, 1 << 32, (1 << N) - 1, 1 << (N - 1), 10 ** 9, 10 ** 10 - 1]
        vals += [1 << (32 * i) for i in range(2, N // 32)][:20]
        vals += [self.nat() for _ in range(self.count(60))]
        vals += [self.digits(N, r.choice([10, 10, 8])) for _ in range(self.count(30 if N <= 1024 else 8))]
        for v in vals:
            for base in (2, 8, 10, 16):
                if N > 512 and r.random() < (0.75 if base != 16 else 0.3):
                    continue
                if N > 2048 and base != 16 and (N > 4096 or base < 8 or r.random() < 0.9):     # slow
                    v %= 1 << 700
                elif N == 2048 and base != 16 and self.scale > 1 and r.random() < 0.7:
                    v %= 1 << 700
                elif N >= 2048 and base != 16 and v >> (20 if N > 2048 else 400) and self.scale <= 1 and r.random() < 0.9:
                    if N > 2048:
                        continue
                    v >>= N - r.randint(1, 400)
                s = r.random() < 0.5
                x = self.sgn(v) if s else v
                sb, up, wide = r.randrange(2), r.randrange(2), r.randrange(2)
                text = ("-" if x < 0 else "") + ({2: "0b", 8: "0o", 16: "0x", 10: ""}[base] if sb else "") + self.numeral(abs(x), base, 0)
                full = len(text) + 1
                caps = [full, full + 1, full + r.randint(0, 40), full - 1, max(0, full - 2), r.randint(0, full)]
                for cap in (r.sample(caps, 3) + [full, full - 1] if N <= 512 else r.sample(caps, 2)):
                    emit(x, s, base, up, sb, wide, cap)
        for cap in range(0, 14):    # tiny buffers
            for _ in range(6):
                v = r.choice([0, 0, 1, 9, 0xabc, 12345, self.nat() if N <= 2048 else 1 << 64])
                s = r.random() < 0.6
                emit(self.sgn(v), s, r.choice([2, 8, 10, 16]), r.randrange(2), r.randrange(2), r.randrange(2), cap)

    def c20(self):
        r, N = self.r, self.N
        for _ in range(self.count(160)):
            ids = [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]) for _ in range(r.randint(2, 5))]
            self.room(6)
            held = {}
            for i in sorted(set(ids)):
                W = self.M if i >= 8 else N
                v = r.choice([0, 1, self.nat(W), self.nat(W), self.nat(W) >> (W // 2)])
                if N > 512:
                    v = r.choice([0, r.getrandbits(80), self.nat(W) % (1 << 1500) if r.random() < 0.2 else 5])
                self.load(i, self.sgn(v) if i in (4, 5, 6, 7, 10, 11) else v)
                held[i] = v
            self.emit("insq as=%s base=%d up=%d sb=%d wide=%d adj=%d fill=%d prec=%d extra=%d" % (
                ",".join(map(str, ids)), r.choice([8, 10, 16, 16]), r.randrange(2), r.choice([0, 1, 1]), r.randrange(2), r.randrange(4), r.choice([32, 42, 48, 35]),
                r.choice([6, 0, 3, 17]), r.choice([0, 0, 1, 2, 4, 8, r.randrange(64)])))
            for i in sorted(set(ids) & set(range(8)))[:2]:
                if r.random() < 0.7:
                    self.outf(i, held[i], r.choice([8, 10, 16, 16]))

    def c21(self):
        r, N = self.r, self.N
        for _ in range(self.count(130)):
            a = self.ureg()
            self.room(3)
            v = r.choice([self.nat(), r.getrandbits(N)])
            self.load(a, v)
            big = r.randrange(2)
            self.emit("wbin a=%d%s" % (a, self.big(big)))
            if r.random() < 0.5:
                self.emit("wbinf a=%d%s cap=%d" % (a, self.big(r.randrange(2)), r.choice([0, 1, 2, 3, 4, 5, N // 8 - 1, N // 8, N // 8 + 1, r.randint(0, N // 8), 4 * r.randint(0, N // 32)])))
            # what was written, read back
            nb = N // 32
            blocks = [(v >> (32 * i)) & 0xffffffff for i in range(nb)]
            data = b"".join(x.to_bytes(4, "little") for x in (reversed(blocks) if big else blocks))
            d = self.ureg()
            self.load(d, r.choice([0, (1 << N) - 1, self.nat()]))
            self.emit("rbin d=%d%s x=%s" % (d, self.big(big), ",".join(map(str, data))))
        # several numbers in one stream, the last one perhaps cut short
        for _ in range(self.count(40)):
            d = self.ureg()
            self.room(2)
            self.load(d, r.choice([0, (1 << N) - 1, self.nat()]))
            n = N // 8 + r.choice([1, 3, 4, 5, N // 8 - 1, N // 8, N // 8, N // 8 + 1, N // 4, r.randint(1, N // 4)])
            self.emit("rbin d=%d%s x=%s" % (d, self.big(r.randrange(2)), ",".join(str(r.choice([0, 255, r.randrange(256)])) for _ in range(n))))
        lens = list(range(N // 8 + 5)) if N <= 256 else sorted({4 * i + o for i in range(N // 32 + 1) for o in (0, 1, 2, 3)})
        for n in (lens if len(lens) < 140 else r.sample(lens, 100) + [0, 1, 3, 4, 5, N // 8 - 1, N // 8, N // 8 + 1, N // 8 + 4]):
            for big in (0, 1):
                d = self.ureg()
                self.room(2)
                self.load(d, r.choice([0, (1 << N) - 1, (1 << N) - 1, self.nat()]))
                data = [r.choice([0, 255, r.randrange(1, 256), r.randrange(256)]) for _ in range(n)]
                self.emit("rbin d=%d%s x=%s" % (d, self.big(big), ",".join(map(str, data))))

    def c22(self):
        r, N = self.r, self.N
        for t, w in list(UTYPES.items()) + [("bool", 1), ("c16", 16), ("c32", 32)]:
            for k in {0, 1, (1 << w) - 1, 1 << (w - 1), ((1 << w) - 1) >> 1, r.getrandbits(w), r.getrandbits(w), (0xffffffff if w == 64 else 1), (1 << 32 if w == 64 else 0)}:
                for d in (self.ureg(), self.sreg()):
                    if d >= 4 and not self.fits(k):
                        continue
                    self.room(2)
                    self.load(d, self.nat() if d < 4 else self.sgn(self.nat()))
                    self.emit("cons f=%s d=%d t=%s k=%s" % (r.choice(["ctor", "asg"]), d, t, hx(k)))
        for t, w in list(STYPES.items()) + [("c8", 8), ("wc", 32)]:
            for k in {0, 1, -1, (1 << (w - 1)) - 1, -(1 << (w - 1)), -(1 << (w - 1)) + 1, r.getrandbits(w - 1), -r.getrandbits(w - 1), -(1 << (w // 2)), (1 << (w // 2))}:
                for f in ("ctor", "asg"):
                    if not self.fits(k):
                        continue
                    d = self.sreg()
                    self.room(2)
                    self.load(d, self.sgn(self.nat()))
                    self.emit("cons f=%s d=%d t=%s k=%s" % (f, d, t, hx(k)))
        for _ in range(self.count(420)):
            t = r.choice(list(UTYPES) + list(STYPES))
            w = UTYPES.get(t) or STYPES[t]
            v = r.choice([0, 1, (1 << w) - 1, 1 << w, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << w) + 5, r.getrandbits(w), r.getrandbits(w - 1),
                          self.nat(), self.nat(), r.getrandbits(64), (1 << 64) - 1, 1 << 63, (1 << 63) + 1, 1 << 64, (1 << 32) | r.getrandbits(32), r.getrandbits(70)])
            v %= 1 << N
            self.room(2)
            s = r.random() < 0.55
            a = self.sreg() if s else self.ureg()
            self.load(a, self.sgn(v) if s else v)
            self.emit("icast a=%d t=%s" % (a, t))

    def c23(self):
        r, N, M = self.r, self.N, self.M
        lo = min(N, M)
        for _ in range(self.count(330)):
            s = r.random() < 0.5
            up = r.random() < 0.5       # from the N side or the M side
            src = (self.sreg() if s else self.ureg()) if up else (r.choice([10, 11]) if s else r.choice([8, 9]))
            dst = (r.choice([10, 11]) if s else r.choice([8, 9])) if up else (self.sreg() if s else self.ureg())
            W = N if up else M
            v = self.nat(W)
            if r.random() < 0.25:
                v = r.choice([v >> lo << lo, v | 1 << (lo - 1), (1 << lo) % (1 << W), v % (1 << lo), (1 << W) - 1, 0])
            self.room(3)
            self.load(src, self.sgn(v) if s else v)
            if r.random() < 0.5:
                self.load(dst, self.nat(M if up else N))
            self.emit("pcast a=%d d=%d" % (src, dst))
        for _ in range(self.count(200)):
            self.room(4)
            k = r.randrange(5)
            a, b = self.sreg(), self.sreg()
            u = self.ureg()
            v = self.sgn(r.choice([0, self.nat(), self.nat(), 1]))
            if k == 0:
                self.load(a, v)
                self.emit("ucast a=%d d=%d" % (a, u))
            elif k == 1:
                self.load(u, abs(v))
                self.load(b, self.sgn(self.nat()))
                self.emit("fromu a=%d d=%d" % (u, b))
            elif k == 2:
                s = r.random() < 0.5
                x, y = (a, b) if s else (self.ureg(), self.ureg())
                self.load(x, v if s else abs(v))
                if r.random() < 0.5:
                    self.load(y, self.nat())
                self.emit("copy f=%s a=%d d=%d" % (r.choice(["ctor", "asg", "mem", "mv"]), x, y))
            else:
                s = r.random() < 0.5
                x, y = (a, b) if s else (self.ureg(), self.ureg())
                self.load(x, v if s else abs(v))
                if x != y:
                    w = self.nat()
                    self.load(y, self.sgn(w) if s else w)
                self.emit("swap %sa=%d b=%d" % (r.choice(["", "", "f=mv "]), x, y))

    def c26(self):
        r, N = self.r, self.N
        for _ in range(self.count(260)):
            k = r.randrange(3)
            if k == 0:
                v = self.sgn(self.nat(N + 64) if r.random() < 0.5 else r.getrandbits(r.randint(1, 2 * N)))
                self.room(2)
                d = self.ureg()
                self.load(d, self.nat())
                self.emit("mpz d=%d k=%s" % (d, hx(v)))
            elif k == 1:
                self.room(2)
                d = self.sreg()
                self.load(d, self.sgn(self.nat()))
                self.emit("mpz d=%d k=%s" % (d, hx(self.sgn(r.choice([0, self.nat(), self.nat(), (1 << N) - 1, 1, 1 << (N - 1)])))))
            else:
                self.room(2)
                s = r.random() < 0.6
                a = self.sreg() if s else self.ureg()
                v = self.nat()
                v = self.sgn(v) if s else v
                w = r.choice([v, v, v, abs(v) if not s else -v, self.near(abs(v)), self.nat(), 0])
                if not s:
                    w = abs(w)
                if abs(w) >= 1 << N:
                    w = v
                self.load(a, v)
                self.emit("mpzeq a=%d k=%s" % (a, hx(w)))
        # numbers that differ in one bit, block or limb, most of them above a short GMP number
        n = N // 32
        for i in range(n) if n <= 16 else sorted(r.sample(range(n), 12)) + [1, 2, 3, n // 2, n - 1]:
            for _ in range(3):
                w = min(N, r.choice([8, 32, 32, 33, 63, 64, 64, 64, 65, 96, 128, 32 * i or 32]))
                low = r.choice([self.nat() % (1 << w), (1 << w) - 1, 1 << (w - 1), r.getrandbits(w) | 1 << (w - 1), 0, 1])
                diff = r.choice([1, 1, 1 << r.randrange(32), 0xffffffff, r.getrandbits(32) | 1]) << (32 * i)
                s = r.random() < 0.4
                g = r.choice([1, -1]) if s else 1
                x, y = (low ^ diff, low) if r.random() < 0.7 else (low, low ^ diff)
                self.room(2)
                a = self.sreg() if s else self.ureg()
                self.load(a, g * (x % (1 << N)))
                self.emit("mpzeq a=%d k=%s" % (a, hx(g * (y % (1 << N)))))
