------------------------------- MODULE AesiSem -------------------------------
(* The meaning of every public operation of Aeu and Aesi, as a transition      *)
(* function on a set of numbered objects ("registers").                        *)
(*                                                                             *)
(* A register holds an integer, represented in sign and magnitude             *)
(*     [s |-> -1 | 0 | 1, m |-> natural number],                               *)
(* has a kind ("u": Aeu, "s": Aesi) and a width in bits.  A call of the        *)
(* library is a record c:  c.o is the operation, c.f the form in which it is  *)
(* written, c.a, c.b, ... the operand registers, c.d, c.d2, ... the            *)
(* destinations, c.k a literal of built-in type c.t, and so on.                *)
(*     Pre(reg, c)   the call is inside the documented domain                  *)
(*     Eff(reg, c)   [w |-> the destinations with their new values,            *)
(*                    r |-> the value returned]                                *)
(* Everything not in w keeps its value.                                        *)
EXTENDS BigNat, FiniteSets

CONSTANTS Kd(_),       \* kind of a register
          Wd(_, _),    \* width of a register under a configuration
          BlockBits,   \* 32 in the library
          ByteBits,    \* 8 in the library
          TypeBits(_), \* width of a built-in integer type
          TypeSigned(_)

(* ================================ integers ================================ *)
Z(s, m) == [s |-> IF m = Zero THEN 0 ELSE s, m |-> m]
ZZero == [s |-> 0, m |-> Zero]
ZOne == [s |-> 1, m |-> One]
IsZ(x) == x.s \in {-1, 0, 1} /\ IsBigNat(x.m) /\ (x.s = 0 <=> x.m = Zero)
ZNeg(x) == [s |-> -x.s, m |-> x.m]
ZAdd(x, y) == IF x.s = 0 THEN y
              ELSE IF y.s = 0 THEN x
              ELSE IF x.s = y.s THEN Z(x.s, Add(x.m, y.m))
              ELSE IF Cmp(x.m, y.m) >= 0 THEN Z(x.s, Sub(x.m, y.m))
              ELSE Z(y.s, Sub(y.m, x.m))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Z(x.s * y.s, Mul(x.m, y.m))
(* truncated quotient; the remainder has the sign of the dividend; y # 0 *)
ZQuo(x, y) == Z(x.s * y.s, Div(x.m, y.m))
ZRem(x, y) == Z(x.s, Mod(x.m, y.m))
ZCmp(x, y) == IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
              ELSE IF x.s >= 0 THEN Cmp(x.m, y.m) ELSE Cmp(y.m, x.m)

(* z modulo 2^w, in 0 .. 2^w - 1 *)
Mod2(z, w) == LET l == LowBits(z.m, w)
              IN IF z.s >= 0 \/ l = Zero THEN l ELSE Sub(Pow2(w), l)

(* ============================ storing a result ============================ *)
Fits(k, w, z) == k = "u" \/ BitLen(z.m) <= w
(* An unsigned object keeps the result modulo 2^w; a signed one must fit. *)
Store(k, w, z) == IF k = "u" THEN Z(1, Mod2(z, w)) ELSE z

Lit(p) == Z(p[1], FromHex(p[2]))     \* a literal <<sign, hex>>
Num(h) == FromHex(h)                 \* an index, length or shift amount
B2I(p) == IF p THEN 1 ELSE 0

(* ============================== binary operators ========================== *)
Left(reg, c)  == CASE c.f \in {"rr", "ri"} -> reg[c.a]
                   [] c.f \in {"=r", "=i"} -> reg[c.d]
                   [] c.f = "ir" -> Lit(c.k)
Right(reg, c) == CASE c.f \in {"rr", "=r"} -> reg[c.b]
                   [] c.f \in {"ri", "=i"} -> Lit(c.k)
                   [] c.f = "ir" -> reg[c.a]

Arith(o, x, y) ==
    CASE o = "add" -> ZAdd(x, y)
      [] o = "sub" -> ZSub(x, y)
      [] o = "mul" -> ZMul(x, y)
      [] o = "div" -> ZQuo(x, y)
      [] o = "mod" -> ZRem(x, y)
      [] o = "and" -> Z(1, BitAnd(x.m, y.m))
      [] o = "or"  -> Z(1, BitOr(x.m, y.m))
      [] o = "xor" -> Z(1, BitXor(x.m, y.m))
ArithOps == {"add", "sub", "mul", "div", "mod", "and", "or", "xor"}

(* Value of x shifted by n bits; amounts of w and more leave it alone. *)
ShiftVal(o, x, n, w) ==
    IF Cmp(n, FromInt(w)) >= 0 THEN x
    ELSE LET k == ToInt(n)
         IN IF o = "shl" THEN Z(1, LowBits(Shl(x.m, k), w)) ELSE Z(1, Shr(x.m, k))

(* ================================= text =================================== *)
(* Texts are sequences of character codes. *)
DigitCode(v, upper) == IF v < 10 THEN 48 + v ELSE (IF upper THEN 55 ELSE 87) + v
NatText(m, base, upper) ==
    IF m = Zero THEN <<48>>
    ELSE LET ds == Digits(m, base) IN [i \in 1..Len(ds) |-> DigitCode(ds[i], upper)]
Prefix(base) == CASE base = 2 -> <<48, 98>> [] base = 8 -> <<48, 111>>
                  [] base = 10 -> <<>> [] base = 16 -> <<48, 120>>
Minus == <<45>>
ZText(z, base, upper, prefix) ==
    (IF z.s < 0 THEN Minus ELSE <<>>) \o (IF prefix THEN Prefix(base) ELSE <<>>) \o NatText(z.m, base, upper)

(* Text inserted into a stream: a signed zero is printed without base prefix. *)
StreamText(z, k, base, upper, showbase) ==
    ZText(z, base, upper, showbase /\ base # 10 /\ ~(k = "s" /\ z.s = 0))

IsDec(ch) == ch \in 48..57
IsAlnum(ch) == ch \in 48..57 \/ ch \in 65..90 \/ ch \in 97..122
DigitVal(ch) == IF ch \in 48..57 THEN ch - 48
                ELSE IF ch \in 97..102 THEN ch - 87
                ELSE IF ch \in 65..70 THEN ch - 55 ELSE 99
(* position of the first alphanumeric character, Len + 1 if there is none *)
RECURSIVE SkipFrom(_, _)
SkipFrom(x, i) == IF i > Len(x) \/ IsAlnum(x[i]) THEN i ELSE SkipFrom(x, i + 1)
BaseAt(x, i) == IF i < Len(x) /\ x[i] = 48
                THEN CASE x[i + 1] \in {98, 66}  -> 2
                       [] x[i + 1] \in {111, 79} -> 8
                       [] x[i + 1] \in {120, 88} -> 16
                       [] OTHER -> 10
                ELSE 10
ParseNat(x) ==
    LET i == SkipFrom(x, 1)
    IN IF i > Len(x) THEN Zero
       ELSE LET base == BaseAt(x, i)
                from == IF base = 10 THEN i ELSE i + 2
                good == SelectSeq(SubSeq(x, from, Len(x)), LAMBDA ch : DigitVal(ch) < base)
            IN FromDigits([j \in 1..Len(good) |-> DigitVal(good[j])], base)
Dashes(x) == Len(SelectSeq(x, LAMBDA ch : ch = 45))
(* The number denoted by a text, as stored in an object of kind k, width w. *)
ParseVal(x, k, w) ==
    LET m == LowBits(ParseNat(x), w)
    IN Z(IF k = "s" /\ Dashes(x) % 2 = 1 THEN -1 ELSE 1, m)

(* ============================ field access ================================ *)
FieldMax(bits) == Sub(Pow2(bits), One)
(* m with the field of `bits' bits at position n (in fields) set to v *)
SetField(m, n, bits, v) ==
    LET lo == LowBits(m, n * bits)
        hi == Shl(Shr(m, (n + 1) * bits), (n + 1) * bits)
    IN Add(Add(hi, Shl(v, n * bits)), lo)
GetField(m, n, bits) == LowBits(Shr(m, n * bits), bits)
FieldBits(c) == CASE c.o \in {"setbit", "getbit"} -> 1
                  [] c.o \in {"setbyte", "getbyte"} -> ByteBits
                  [] c.o \in {"setblk", "getblk"} -> BlockBits
CeilDiv(n, k) == (n + k - 1) \div k

(* ============================ integral casts ============================== *)
(* Low bits of z as a value of a built-in type: two's complement for signed    *)
(* types; an unsigned type receives the low bits of the magnitude unless z is  *)
(* negative and fits nothing - see C22.                                        *)
CastVal(z, bits, signed) ==
    IF signed THEN LET l == Mod2(z, bits)
                   IN IF Bit(l, bits - 1) = 1 THEN Z(-1, Sub(Pow2(bits), l)) ELSE Z(1, l)
    ELSE Z(1, LowBits(z.m, bits))

(* Arguments that may be left out, and what they are then. *)
ShowBase(c) == IF "sb" \in DOMAIN c THEN c.sb ELSE FALSE
BigEndian(c) == IF "big" \in DOMAIN c THEN c.big ELSE TRUE

(* ============================= binary streams ============================= *)
(* The bytes of a number: 32-bit blocks in the requested order, the bytes of   *)
(* each block in the (little-endian) order of the machine.                     *)
BytesPerBlock == BlockBits \div ByteBits
RawBytes(m, w, big) ==
    LET nb == w \div BlockBits
    IN [i \in 1..(nb * BytesPerBlock) |->
          LET blk == (i - 1) \div BytesPerBlock
              pos == (i - 1) % BytesPerBlock
              src == IF big THEN nb - 1 - blk ELSE blk
          IN ToInt(GetField(m, src * BytesPerBlock + pos, ByteBits))]
(* The magnitude read from the bytes x (missing bytes read as zero). *)
FromRaw(x, w, big) ==
    LET nb == w \div BlockBits
        n == nb * BytesPerBlock
        \* the byte that ends up at position j (most significant first)
        at(j) == LET up == n - j              \* position from the least significant end
                     blk == up \div BytesPerBlock
                     src == (IF big THEN nb - 1 - blk ELSE blk) * BytesPerBlock + (up % BytesPerBlock) + 1
                 IN IF src <= Len(x) THEN x[src] ELSE 0
    IN FromDigits([j \in 1..n |-> at(j)], 2^ByteBits)

(* ============================ number theory =============================== *)
Lcm(a, b) == IF a = Zero \/ b = Zero THEN Zero ELSE Mul(Div(a, Gcd(a, b)), b)
(* a*x + b*y = g modulo 2^w *)
Bezout(a, b, x, y, g, w) == LowBits(Add(Mul(a, x), Mul(b, y)), w) = LowBits(g, w)

(* ============================ comparison results ========================== *)
CmpAll(x, y) == LET t == ZCmp(x, y)
                IN <<B2I(t = 0), B2I(t # 0), B2I(t < 0), B2I(t <= 0), B2I(t > 0), B2I(t >= 0), t>>

(* =============================== the calls ================================ *)
Beginning(t, n) == IF Len(t) <= n THEN t ELSE SubSeq(t, 1, n)
NoRes == <<>>
(* Calls whose returned value is an integer / anything else. *)
ValueOps == ArithOps \cup {"inc", "dec", "shl", "shr", "getbit", "getbyte", "getblk", "icast"}
OtherResOps == {"cmp", "qry", "out", "wbin", "rbin", "mpzeq", "gstr", "insq", "outf", "wbinf"}
W1(d, v) == << <<d, v>> >>
W2(d, v, e, u) == << <<d, v>>, <<e, u>> >>

(* In-domain calls.  (Out-of-range bit, byte and block indices, shift amounts  *)
(* and buffer sizes are inside the domain.)                                    *)
(* A literal operand becomes a number of the other operand's precision first:  *)
(* where that matters, it must fit.                                             *)
LitFits(k, w, c) == c.f \in {"ri", "ir", "=i"} => Fits(k, w, Lit(c.k))
Pre(reg, cfg, c) ==
    CASE c.o \in {"add", "sub", "mul"} ->
            /\ Fits(Kd(c.d), Wd(cfg, c.d), Arith(c.o, Left(reg, c), Right(reg, c)))
            /\ c.o = "mul" \/ LitFits(Kd(c.d), Wd(cfg, c.d), c)
      [] c.o \in {"div", "mod"} -> Right(reg, c).s # 0 /\ LitFits("s", Wd(cfg, c.d), c)
      [] c.o = "inc" -> Fits(Kd(c.d), Wd(cfg, c.d), ZAdd(reg[c.d], ZOne))
      [] c.o = "dec" -> Fits(Kd(c.d), Wd(cfg, c.d), ZSub(reg[c.d], ZOne))
      [] c.o = "dm" -> reg[c.b].s # 0 /\ c.d # c.d2
                       /\ (c.f = "out" => {c.a, c.b} \cap {c.d, c.d2} = {})
      [] c.o = "xgcd" -> Cardinality({c.d, c.d2, c.d3}) = 3 /\ {c.a, c.b} \cap {c.d2, c.d3} = {}
      [] c.o = "lcm" -> BitLen(Lcm(reg[c.a].m, reg[c.b].m)) <= Wd(cfg, c.d)
      [] c.o = "powm" -> LET m == reg[c.m].m IN
                         m # Zero /\ BitLen(Mul(Sub(m, One), Sub(m, One))) <= Wd(cfg, c.d)
      [] c.o \in {"setbit", "setbyte", "setblk"} ->
            Kd(c.d) = "u" \/ Cmp(Num(c.n), FromInt(Wd(cfg, c.d) \div FieldBits(c))) >= 0
            \/ (reg[c.d].s = 0 <=> SetField(reg[c.d].m, ToInt(Num(c.n)), FieldBits(c), Num(c.v)) = Zero)
      [] c.o = "cons" -> Fits(Kd(c.d), Wd(cfg, c.d), Lit(c.k))
      [] c.o = "mpz" -> Fits(Kd(c.d), Wd(cfg, c.d), Lit(c.k))
      [] c.o = "mpzeq" -> BitLen(Lit(c.k).m) <= Wd(cfg, c.a) /\ (Kd(c.a) = "u" => Lit(c.k).s >= 0)
      [] OTHER -> TRUE

Eff(reg, cfg, c) ==
    CASE c.o \in ArithOps ->
            LET v == Store(Kd(c.d), Wd(cfg, c.d), Arith(c.o, Left(reg, c), Right(reg, c)))
            IN [w |-> W1(c.d, v), r |-> v]
      [] c.o = "neg" -> LET v == Store(Kd(c.d), Wd(cfg, c.d), ZNeg(reg[c.a])) IN [w |-> W1(c.d, v), r |-> NoRes]
      [] c.o = "pos" -> [w |-> W1(c.d, reg[c.a]), r |-> NoRes]
      [] c.o = "inv" -> [w |-> W1(c.d, ZNeg(reg[c.d])), r |-> NoRes]
      [] c.o = "not" -> LET v == Z(1, Sub(FieldMax(Wd(cfg, c.d)), reg[c.a].m)) IN [w |-> W1(c.d, v), r |-> NoRes]
      [] c.o \in {"inc", "dec"} ->
            LET old == reg[c.d]
                v == Store(Kd(c.d), Wd(cfg, c.d), IF c.o = "inc" THEN ZAdd(old, ZOne) ELSE ZSub(old, ZOne))
            IN [w |-> W1(c.d, v), r |-> IF c.f = "post" THEN old ELSE v]
      [] c.o \in {"shl", "shr"} ->
            LET v == ShiftVal(c.o, reg[IF c.f = "=" THEN c.d ELSE c.a], Num(c.n), Wd(cfg, c.d))
            IN [w |-> W1(c.d, v), r |-> v]
      [] c.o = "cmp" ->
            LET x == IF c.f = "ir" THEN Lit(c.k) ELSE reg[c.a]
                y == CASE c.f = "rr" -> reg[c.b] [] c.f = "ri" -> Lit(c.k) [] c.f = "ir" -> reg[c.a]
                t == CmpAll(x, y)
            IN [w |-> <<>>, r |-> IF c.f = "ir" THEN t ELSE Append(t, t[7])]
      [] c.o = "dm" -> LET x == reg[c.a]  y == reg[c.b]
                       IN [w |-> W2(c.d, ZQuo(x, y), c.d2, ZRem(x, y)), r |-> NoRes]
      [] c.o = "gcd" -> [w |-> W1(c.d, Z(1, Gcd(reg[c.a].m, reg[c.b].m))), r |-> NoRes]
      [] c.o = "lcm" -> [w |-> W1(c.d, Z(1, Lcm(reg[c.a].m, reg[c.b].m))), r |-> NoRes]
      [] c.o = "powm" -> [w |-> W1(c.d, Z(1, PowMod(reg[c.a].m, reg[c.p].m, reg[c.m].m))), r |-> NoRes]
      [] c.o = "sqrt" -> [w |-> W1(c.d, IF reg[c.a].s > 0 THEN Z(1, Sqrt(reg[c.a].m)) ELSE ZZero), r |-> NoRes]
      [] c.o = "pow2" -> [w |-> W1(c.d, IF Cmp(Num(c.n), FromInt(Wd(cfg, c.d))) >= 0 THEN ZZero
                                        ELSE Z(1, Pow2(ToInt(Num(c.n))))), r |-> NoRes]
      [] c.o \in {"setbit", "setbyte", "setblk"} ->
            LET fb == FieldBits(c)  x == reg[c.d]
            IN [w |-> IF Cmp(Num(c.n), FromInt(Wd(cfg, c.d) \div fb)) >= 0 THEN <<>>
                      ELSE LET m == SetField(x.m, ToInt(Num(c.n)), fb, Num(c.v))
                           IN W1(c.d, IF Kd(c.d) = "u" THEN Z(1, m) ELSE Z(x.s, m)),
                r |-> NoRes]
      [] c.o \in {"getbit", "getbyte", "getblk"} ->
            LET fb == FieldBits(c)
            IN [w |-> <<>>,
                r |-> IF Cmp(Num(c.n), FromInt(Wd(cfg, c.a) \div fb)) >= 0 THEN ZZero
                      ELSE Z(1, GetField(reg[c.a].m, ToInt(Num(c.n)), fb))]
      [] c.o = "qry" ->
            LET x == reg[c.a]  n == BitLen(x.m)  odd == Bit(x.m, 0) = 1  w == Wd(cfg, c.a)
                q == <<n, CeilDiv(n, ByteBits), CeilDiv(n, BlockBits), B2I(odd), B2I(~odd), B2I(x.s = 0),
                       w, w \div BlockBits>>
            IN [w |-> <<>>, r |-> IF Kd(c.a) = "u" THEN q ELSE q \o <<B2I(x.s > 0), B2I(x.s < 0)>>]
      [] c.o = "parse" -> [w |-> W1(c.d, ParseVal(c.x, Kd(c.d), Wd(cfg, c.d))), r |-> NoRes]
      [] c.o = "out" ->   \* insertion into a stream; with bk, construction from that text
            LET x == reg[c.a]
            IN [w |-> IF c.bk THEN W1(c.d, x) ELSE <<>>, r |-> StreamText(x, Kd(c.a), c.base, c.up, c.sb)]
      [] c.o = "wbin" -> [w |-> <<>>, r |-> RawBytes(reg[c.a].m, Wd(cfg, c.a), BigEndian(c))]
      [] c.o = "outf" ->  \* insertion into a stream whose destination takes c.cap characters and then fails; r: whether
                          \* the stream is still good, whether its formatting is what it was, the characters that arrived
            LET t == StreamText(reg[c.a], Kd(c.a), c.base, c.up, c.sb)
            IN [w |-> <<>>, r |-> <<B2I(Len(t) <= c.cap), 1>> \o Beginning(t, c.cap)]
      [] c.o = "wbinf" -> \* the same for writeBinary
            LET t == RawBytes(reg[c.a].m, Wd(cfg, c.a), BigEndian(c))
            IN [w |-> <<>>, r |-> <<B2I(Len(t) <= c.cap)>> \o Beginning(t, c.cap)]
      [] c.o = "rbin" ->  \* reading one number; r: the bytes taken, whether the stream is still good, and
                          \* what a number of the same width read next from the same stream becomes
            LET w == Wd(cfg, c.d)  full == w \div ByteBits
                rest == IF Len(c.x) > full THEN SubSeq(c.x, full + 1, Len(c.x)) ELSE <<>>
            IN [w |-> W1(c.d, Z(1, FromRaw(c.x, w, BigEndian(c)))),
                r |-> <<IF Len(c.x) < full THEN Len(c.x) ELSE full, B2I(Len(c.x) >= full)>>
                      \o RawBytes(FromRaw(rest, w, BigEndian(c)), w, BigEndian(c))]
      [] c.o = "cons" -> [w |-> W1(c.d, Store(Kd(c.d), Wd(cfg, c.d), Lit(c.k))), r |-> NoRes]
      [] c.o = "icast" -> [w |-> <<>>, r |-> CastVal(reg[c.a], TypeBits(c.t), TypeSigned(c.t))]
      [] c.o = "pcast" -> LET x == reg[c.a] IN [w |-> W1(c.d, Z(x.s, LowBits(x.m, Wd(cfg, c.d)))), r |-> NoRes]
      [] c.o = "ucast" -> [w |-> W1(c.d, Z(1, reg[c.a].m)), r |-> NoRes]
      [] c.o = "fromu" -> [w |-> W1(c.d, reg[c.a]), r |-> NoRes]
      [] c.o = "copy" -> [w |-> W1(c.d, reg[c.a]), r |-> NoRes]
      [] c.o = "swap" -> [w |-> W2(c.a, reg[c.b], c.b, reg[c.a]), r |-> NoRes]
      [] c.o = "mpz" -> [w |-> W1(c.d, Store(Kd(c.d), Wd(cfg, c.d),
                                        IF Kd(c.d) = "u" THEN Z(1, Lit(c.k).m) ELSE Lit(c.k))), r |-> NoRes]
      [] c.o = "mpzeq" -> [w |-> <<>>, r |-> LET e == B2I(ZCmp(reg[c.a], Lit(c.k)) = 0) IN <<e, e>>]
      [] c.o = "insq" -> [w |-> <<>>, r |-> NoRes]
      [] c.o = "load" -> [w |-> W1(c.d, Lit(c.k)), r |-> NoRes]

(* The registers after the writes w. *)
RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(reg, w, i) == IF i > Len(w) THEN reg
                        ELSE ApplyFrom([reg EXCEPT ![w[i][1]] = w[i][2]], w, i + 1)
Apply(reg, w) == ApplyFrom(reg, w, 1)

(* Calls with more than one allowed outcome: `new' are the registers after the *)
(* call and r the value returned.                                              *)
Frame(reg, new, ids) == \A i \in DOMAIN reg : i \in ids \/ new[i] = reg[i]
(* An assignment, ++x and --x denote the object itself (c.self), so that they   *)
(* can be chained.                                                              *)
DenotesObject(c) == "self" \in DOMAIN c => c.self
Allowed(reg, cfg, c, new, r) ==
  /\ DenotesObject(c)
  /\ CASE c.o = "xgcd" ->    \* extended gcd: any Bezout coefficients will do
              LET g == Gcd(reg[c.a].m, reg[c.b].m)
              IN /\ Frame(reg, new, {c.d, c.d2, c.d3})
                 /\ new[c.d] = Z(1, g)
                 /\ Bezout(reg[c.a].m, reg[c.b].m, new[c.d2].m, new[c.d3].m, g, Wd(cfg, c.d))
        [] c.o = "gstr" ->    \* getString into a buffer of c.cap characters
              LET full == Append(ZText(reg[c.a], c.base, c.up, ShowBase(c)), 0)
              IN /\ new = reg
                 /\ ~r.out                          \* nothing outside the buffer was written
                 /\ r.n <= c.cap
                 /\ c.cap >= Len(full) => r.n = Len(full) /\ r.x = full
        [] c.o = "insq" ->    \* several insertions into one stream; r.st: its formatting before and
                              \* after each, r.alone: each number inserted into a stream of its own
              LET RECURSIVE Cat(_)
                  Cat(j) == IF j > Len(r.alone) THEN <<>> ELSE r.alone[j] \o <<59>> \o Cat(j + 1)
              IN /\ new = reg
                 /\ \A j \in 1..Len(r.st) : r.st[j] = r.st[1]
                 /\ r.x = Cat(1)
        [] OTHER -> LET e == Eff(reg, cfg, c) IN new = Apply(reg, e.w) /\ (c.o \in ValueOps \cup OtherResOps => r = e.r)
=============================================================================
