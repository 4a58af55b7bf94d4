------------------------------- MODULE AesiGen -------------------------------
(* Behaviours of the specification, to be replayed on the real code.            *)
(*                                                                             *)
(* Style = "all":  every state whose operand registers hold numbers made of the *)
(*   blocks in Blocks (the values at which carries, borrows, signs and sizes    *)
(*   change), and from each of them every call of the group: one line of output *)
(*   per transition of this state graph.                                        *)
(* Style = "walk": random behaviours (tlc -simulate) in which the results of    *)
(*   calls are the operands of later ones; one line per step.                   *)
(* A line has the registers before the call, the call, and what AesiSem says    *)
(* that the call leaves in the registers and returns.  lib/gentest.py makes the *)
(* real code do the same and compares.                                          *)
(*                                                                             *)
(* Registers and widths as in AesiTrace, at the widths of the library.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, BigNat

CONSTANTS N, M, Group, Style,
          Blocks, More,  \* the blocks of "all" (strings of 8 hexadecimal digits), and those that a lone operand has besides
          Part, Parts    \* this process takes one state in Parts

VARIABLES reg, done
vars == <<reg, done>>

Ids == 0..13
Kind(id) == IF id \in {4, 5, 6, 7, 10, 11, 13} THEN "s" ELSE "u"
Width(cf, id) == IF id \in 8..11 THEN cf.M ELSE cf.N
cfg == [N |-> N, M |-> M]
BuiltinBits(t) == CASE t \in {"u8", "i8"} -> 8
                    [] t \in {"u16", "i16"} -> 16
                    [] t \in {"u32", "i32"} -> 32
                    [] t \in {"u64", "i64", "ull", "ll"} -> 64
                    [] t = "bool" -> 1
BuiltinSigned(t) == t \in {"i8", "i16", "i32", "i64", "ll"}
Sem == INSTANCE AesiSem WITH Kd <- Kind, Wd <- Width, BlockBits <- 32, ByteBits <- 8,
                             TypeBits <- BuiltinBits, TypeSigned <- BuiltinSigned

(* ------------------------------- numbers ---------------------------------- *)
RECURSIVE Words(_, _)
Words(n, bs) == IF n = 0 THEN {""} ELSE { x \o y : x \in Words(n - 1, bs), y \in bs }
NatsOf(w, bs) == { FromHex(x) : x \in Words(w \div 32, bs) }
Three == {"00000000", "00000001", "ffffffff"}
(* numbers of width w for an operand of its own, and for one of two *)
Wide(w) == NatsOf(w, IF w <= 96 THEN Blocks \cup More ELSE IF w <= 128 THEN Blocks ELSE Three)
Pair(w) == NatsOf(w, IF w <= 96 THEN Blocks ELSE IF w <= 128 THEN Three ELSE {"00000000", "ffffffff"} )
P(ns) == { Sem!Z(1, m) : m \in ns }
S(ns) == P(ns) \cup { Sem!Z(-1, m) : m \in ns }

(* literals *)
UMax(b) == CASE b = 8 -> "ff" [] b = 16 -> "ffff" [] b = 32 -> "ffffffff" [] b = 64 -> "ffffffffffffffff"
IMax(b) == CASE b = 8 -> "7f" [] b = 16 -> "7fff" [] b = 32 -> "7fffffff" [] b = 64 -> "7fffffffffffffff"
IMin(b) == CASE b = 8 -> "80" [] b = 16 -> "8000" [] b = 32 -> "80000000" [] b = 64 -> "8000000000000000"
LitsOf(t) == LET b == BuiltinBits(t)  big == IF b = 64 THEN {"ffffffff", "100000000", "100000001", "ffffffff00000000"} ELSE {}
             IN IF BuiltinSigned(t)
                THEN {<<0, "">>, <<1, IMax(b)>>, <<-1, IMin(b)>>} \cup ({1, -1} \X ({"1", "7"} \cup (big \ {"ffffffff00000000"})))
                ELSE {<<0, "">>} \cup ({1} \X ({"1", "7", IMin(b), UMax(b)} \cup big))
U3 == {"u8", "u32", "u64"}
I3 == {"i8", "i32", "i64"}
UAll == {"u8", "u16", "u32", "u64", "ull"}
IAll == {"i8", "i16", "i32", "i64", "ll"}
HexChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexChar[n + 1] ELSE HexOf(n \div 16) \o HexChar[(n % 16) + 1]
Indices(n) == { HexOf(j) : j \in 0..(n + 2) } \cup {"7fffffff", "80000000", "ffffffff", "100000000", "100000001", "ffffffffffffffff"}

(* -------------------------------- calls ----------------------------------- *)
Bin2(ops, x, y, z) ==    \* all ways to name operands x, y and a destination
    [o : ops, f : {"rr"}, d : {x, y, z}, a : {x}, b : {y}] \cup [o : ops, f : {"=r"}, d : {x}, b : {y}]
Alias(ops, x, z) == [o : ops, f : {"rr"}, d : {x, z}, a : {x}, b : {x}] \cup [o : ops, f : {"=r"}, d : {x}, b : {x}]
BinI(ops, x, z, types) ==
    UNION { [o : ops, f : {"ri", "rc", "ir"}, d : {x, z}, a : {x}, t : {t}, k : LitsOf(t)] \cup [o : ops, f : {"=i"}, d : {x}, t : {t}, k : LitsOf(t)]
            : t \in types }
Un(ops, x, z) == [o : ops, d : {x, z}, a : {x}]
Step(x) == [o : {"inc", "dec"}, f : {"pre", "post"}, d : {x}]
CmpI(x, types) == UNION { [o : {"cmp"}, f : {"ri", "ir"}, a : {x}, t : {t}, k : LitsOf(t)] : t \in types }
Fields(x) == LET F(s, g, n, vs) == [o : {s}, d : {x}, n : Indices(n), v : vs] \cup [o : {g}, a : {x}, n : Indices(n)]
             IN F("setbit", "getbit", N, {"0", "1"}) \cup F("setbyte", "getbyte", N \div 8, {"0", "1", "80", "ff"})
                \cup F("setblk", "getblk", N \div 32, {"0", "1", "80000000", "ffffffff"})
Chars == {48, 49, 57, 97, 70, 103, 98, 120, 88, 111, 45, 32, 46}       \* 0 1 9 a F g b x X o - space .
Few == {48, 49, 98, 120, 45}
RECURSIVE Texts(_, _)
Texts(n, A) == IF n = 0 THEN {<<>>} ELSE { Append(x, ch) : x \in Texts(n - 1, A), ch \in A }
SomeTexts == UNION { Texts(n, Chars) : n \in 1..3 } \cup UNION { Texts(n, Few) : n \in 4..5 }

(* Two operands (x, y) of the group and their values; calls that use both.      *)
PairRegs == CASE Group \in {"C01", "C02", "C03", "C04", "C12", "C13"} -> <<0, 1>>
              [] Group = "C06" -> <<0, 8>> [] Group = "C10" -> <<4, 10>>
              [] Group \in {"C07", "C08", "C09", "C11"} -> <<4, 5>>
              [] Group = "C24" -> <<0, 1>>
              [] OTHER -> <<>>
Halves == { Pow2(k) : k \in {0, 1, 31, 32, 33, 47, 48} } \cup { Sub(Pow2(k), One) : k \in {2, 31, 32, 33, 47, 48} } \cup {FromInt(3), FromInt(1000000007)}
Squares == LET h == { FromHex(x) : x \in Words(N \div 64, Blocks) } \cup Halves
           IN UNION { LET q == Mul(x, x) IN {q, Add(q, One)} \cup (IF q = Zero THEN {} ELSE {Sub(q, One)}) : x \in h }
PairVals == CASE Group \in {"C01", "C02", "C03", "C04", "C12"} -> P(Pair(N)) \X P(Pair(N))
              [] Group = "C24" -> P(NatsOf(N, Three)) \X P(NatsOf(N, Three))
              [] Group = "C13" -> P({ LowBits(x, N) : x \in Pair(N) }) \X P({ x \in Halves : x # Zero })
              [] Group = "C06" -> P(Pair(N)) \X P(NatsOf(M, Three))
              [] Group = "C10" -> S(IF N <= 64 THEN Pair(N) ELSE NatsOf(N, Three)) \X S(IF M <= 96 /\ N <= 64 THEN NatsOf(M, Three) ELSE Pair(M))
              [] Group = "C11" -> S(NatsOf(N, Three)) \X S(NatsOf(N, Three))
              [] Group \in {"C07", "C08", "C09"} -> IF N <= 64 THEN S(Pair(N)) \X S(Pair(N))
                                               ELSE S(NatsOf(N, IF N <= 96 THEN Three \cup {"80000000"} ELSE Three)) \X S(NatsOf(N, Three))
              [] OTHER -> {}
PairCalls == CASE Group = "C01" -> Bin2({"add", "sub"}, 0, 1, 2)
               [] Group = "C02" -> Bin2({"mul"}, 0, 1, 2)
               [] Group = "C03" -> Bin2({"div", "mod"}, 0, 1, 2) \cup [o : {"dm"}, f : {"out", "pair"}, d : {2}, d2 : {3}, a : {0}, b : {1}]
               [] Group = "C04" -> Bin2({"and", "or", "xor"}, 0, 1, 2)
               [] Group = "C06" -> [o : {"cmp"}, f : {"rr"}, a : {0}, b : {8}] \cup [o : {"cmp"}, f : {"rr"}, a : {8}, b : {0}]
               [] Group = "C07" -> Bin2({"add", "sub"}, 4, 5, 6)
               [] Group = "C08" -> Bin2({"mul"}, 4, 5, 6)
               [] Group = "C09" -> Bin2({"div", "mod"}, 4, 5, 6) \cup [o : {"dm"}, f : {"out"}, d : {6}, d2 : {7}, a : {4}, b : {5}]
               [] Group = "C10" -> [o : {"cmp"}, f : {"rr"}, a : {4}, b : {10}] \cup [o : {"cmp"}, f : {"rr"}, a : {10}, b : {4}]
               [] Group = "C11" -> [o : {"add", "sub", "div", "mod"}, f : {"=r"}, d : {4}, b : {5}] \cup [o : {"add", "sub", "mul"}, f : {"rr"}, d : {6}, a : {4}, b : {5}]
               [] Group = "C12" -> [o : {"gcd", "lcm"}, d : {0, 2}, a : {0}, b : {1}]
               [] Group = "C13" -> [o : {"powm"}, f : {"m", "t"}, d : {3}, a : {0}, p : {0, 1}, m : {1}]
               [] Group = "C24" -> [o : {"add", "sub", "mul", "div", "mod", "and", "or", "xor"}, f : {"rr"}, d : {2}, a : {0}, b : {1}]
                                   \cup [o : {"add", "sub", "mul", "div", "mod", "and", "or", "xor"}, f : {"=r"}, d : {0}, b : {1}]
                                   \cup [o : {"gcd", "lcm"}, d : {2}, a : {0}, b : {1}] \cup [o : {"swap"}, a : {0}, b : {1}]
               [] OTHER -> {}

(* One operand, its values, and calls that use no other.                        *)
OneRegs == CASE Group \in {"C01", "C02", "C03", "C04", "C05", "C06", "C12", "C21"} -> {0}
             [] Group \in {"C07", "C08", "C09", "C10", "C11"} -> {4}
             [] Group \in {"C14", "C15", "C16", "C17", "C18", "C19", "C22", "C23", "C26"} -> {0, 4}
             [] Group = "C13" -> {8}
             [] Group = "C24" -> {0, 4}
OneVals(x) == LET ns == CASE Group = "C14" -> Wide(N) \cup { q \in Squares : BitLen(q) <= N }
                          [] Group = "C15" -> NatsOf(N, {"00000000", "ffffffff"}) \cup {LowBits(FromHex("a5a5a5a5c3c3c3c30f0f0f0f"), N)}
                          [] Group = "C17" -> {Zero}
                          [] Group = "C05" -> Pair(N)
                          [] Group \in {"C11", "C24"} -> Pair(N)
                          [] Group = "C13" -> {Zero, One, FromInt(2), FromInt(3), Sub(Pow2(32), One), Pow2(63), Sub(Pow2(M), One)}
                          [] OTHER -> Wide(N)
              IN IF Kind(x) = "s" THEN S(ns) ELSE P(ns)
OneCalls(x) ==
    CASE Group = "C01" -> Alias({"add", "sub"}, 0, 2) \cup BinI({"add", "sub"}, 0, 2, U3) \cup Un({"neg", "pos"}, 0, 2) \cup Step(0)
      [] Group = "C02" -> Alias({"mul"}, 0, 2) \cup BinI({"mul"}, 0, 2, U3)
      [] Group = "C03" -> Alias({"div", "mod"}, 0, 2) \cup BinI({"div", "mod"}, 0, 2, U3)
      [] Group = "C04" -> Alias({"and", "or", "xor"}, 0, 2) \cup BinI({"and", "or", "xor"}, 0, 2, U3) \cup Un({"not"}, 0, 2)
      [] Group = "C05" -> LET ns == { HexOf(j) : j \in 0..(N + 40) } \cup {"ffff", "ffffffff"}
                          IN [o : {"shl", "shr"}, f : {"r"}, d : {2}, a : {0}, t : {"u32", "u64"}, n : ns]
                             \cup [o : {"shl", "shr"}, f : {"="}, d : {0}, t : {"u32"}, n : ns]
                             \cup [o : {"shl", "shr"}, f : {"r", "="}, d : {0}, a : {0}, t : {"u64"}, n : {"100000000", "100000001", "ffffffffffffffff", HexOf(N)}]
      [] Group = "C06" -> [o : {"cmp"}, f : {"rr"}, a : {0}, b : {0}] \cup CmpI(0, UAll)
      [] Group = "C07" -> Alias({"add", "sub"}, 4, 6) \cup BinI({"add", "sub"}, 4, 6, I3 \cup {"u64"}) \cup Un({"neg", "pos"}, 4, 6) \cup Step(4)
                          \cup [o : {"inv"}, d : {4}]
      [] Group = "C08" -> Alias({"mul"}, 4, 6) \cup BinI({"mul"}, 4, 6, I3 \cup {"u64"})
      [] Group = "C09" -> Alias({"div", "mod"}, 4, 6) \cup BinI({"div", "mod"}, 4, 6, I3 \cup {"u64"})
      [] Group = "C10" -> [o : {"cmp"}, f : {"rr"}, a : {4}, b : {4}] \cup CmpI(4, IAll \cup UAll)
      [] Group = "C11" -> Alias({"sub", "mod", "div"}, 4, 6) \cup BinI({"add", "sub", "mul", "div", "mod"}, 4, 6, {"i32", "i64"}) \cup Step(4)
                          \cup Un({"neg"}, 4, 6) \cup [o : {"inv"}, d : {4}] \cup [o : {"pcast"}, a : {4}, d : {10}] \cup [o : {"sqrt"}, a : {4}, d : {5}]
      [] Group = "C12" -> [o : {"gcd", "lcm"}, d : {0, 2}, a : {0}, b : {0}]
      [] Group = "C13" -> [o : {"powm"}, f : {"x"}, d : {3}, a : {0, 1}, p : {8}, m : {2}]
      [] Group = "C14" -> [o : {"sqrt"}, d : {x, x + 1}, a : {x}]
      [] Group = "C15" -> Fields(x)
      [] Group = "C16" -> [o : {"qry"}, a : {x}]
      [] Group = "C17" -> [o : {"parse"}, f : {"ptr"}, wide : {FALSE}, d : {x}, x : SomeTexts]
                          \cup [o : {"parse"}, f : {"str", "sv", "strm"}, wide : BOOLEAN, d : {x}, x : UNION { Texts(n, Few) : n \in 1..4 }]
                          \cup [o : {"parse"}, f : {"lit"}, wide : BOOLEAN, d : {x}, x : UNION { Texts(n, Few) : n \in 1..3 }]
      [] Group = "C18" -> [o : {"out"}, a : {x}, d : {x + 1}, base : {8, 10, 16}, up : {FALSE}, sb : {FALSE}, wide : {FALSE}, bk : {FALSE}]
                          \cup [o : {"out"}, a : {x}, d : {x + 1}, base : {8, 10, 16}, up : {TRUE}, sb : {TRUE}, wide : {TRUE}, bk : {TRUE}]
                          \cup [o : {"outf"}, a : {x}, base : {8, 10, 16}, up : {FALSE}, sb : {TRUE}, wide : BOOLEAN, cap : {0, 1, 2, 3, N \div 8, N \div 4, N}]
      [] Group = "C19" -> [o : {"gstr"}, a : {x}, base : {2, 8, 10, 16}, up : {FALSE}, sb : {TRUE}, wide : {FALSE}, cap : {N + 4}]
                          \cup [o : {"gstr"}, a : {x}, base : {8, 10, 16}, up : {TRUE}, sb : {FALSE}, wide : {TRUE}, cap : {N}]
                          \cup [o : {"gstr"}, a : {x}, base : {2, 16}, up : {FALSE}, wide : {FALSE}, cap : {N + 4}]
      [] Group = "C21" -> [o : {"wbin"}, a : {0}, big : BOOLEAN] \cup [o : {"wbin"}, a : {0}] \cup [o : {"rbin"}, d : {0}, x : { [j \in 1..len |-> (j * 41) % 256] : len \in {N \div 8, N \div 8 - 1} }]
                          \cup [o : {"wbinf"}, a : {0}, big : BOOLEAN, cap : {0, 1, 3, 4, 5, N \div 8 - 1, N \div 8, N}]
                          \cup [o : {"rbin"}, d : {0}, big : BOOLEAN, x : { [j \in 1..len |-> (j * 37) % 256] : len \in 0..(N \div 8 + 6) \cup {N \div 4 - 1, N \div 4, N \div 4 + 1} }]
      [] Group = "C22" -> [o : {"icast"}, a : {x}, t : UAll \cup IAll]
                          \cup UNION { [o : {"cons"}, f : {"ctor", "asg"}, d : {x}, t : {t}, k : LitsOf(t)] : t \in IF x = 0 THEN UAll ELSE UAll \cup IAll }
      [] Group = "C23" -> IF x = 0 THEN [o : {"pcast"}, a : {0}, d : {8}] \cup [o : {"fromu"}, a : {0}, d : {4}] \cup [o : {"copy"}, f : {"ctor", "asg", "mv"}, a : {0}, d : {1}]
                          ELSE [o : {"pcast"}, a : {4}, d : {10}] \cup [o : {"ucast"}, a : {4}, d : {0}] \cup [o : {"copy"}, f : {"ctor", "asg", "mv"}, a : {4}, d : {5}]
      [] Group = "C26" -> [o : {"mpz"}, d : {x}, k : {1, -1} \X { h \in Words(N \div 32, Three \cup {"80000000"}) : FromHex(h) # Zero }]
                          \cup [o : {"mpzeq"}, a : {x}, k : {1, -1} \X {"1", "ffffffff", "1ffffffff", "ffffffffffffffffffffffff"}]
      [] Group = "C24" -> IF x = 0 THEN Alias({"add", "sub", "mul", "div", "mod", "and", "or", "xor"}, 0, 2) \cup [o : {"swap"}, a : {0}, b : {0}]
                                        \cup [o : {"gcd", "lcm"}, d : {2}, a : {0}, b : {0}] \cup Un({"not", "neg"}, 0, 2) \cup [o : {"sqrt"}, d : {2}, a : {0}]
                          ELSE Alias({"sub", "mul", "div", "mod"}, 4, 6) \cup [o : {"swap"}, a : {4}, b : {4}] \cup Un({"neg"}, 4, 6)

(* "rc" is "ri" with a const object *)
Norm(c) == IF "f" \in DOMAIN c THEN (IF c.f = "rc" THEN [c EXCEPT !.f = "ri"] ELSE c) ELSE c
(* calls with one allowed outcome *)
Sure(c) == c.o = "gstr" => c.cap >= Len(Sem!ZText(reg[c.a], c.base, c.up, Sem!ShowBase(c))) + 1
Outcome(c) == IF c.o = "gstr"
              THEN LET x == Append(Sem!ZText(reg[c.a], c.base, c.up, Sem!ShowBase(c)), 0)
                   IN [w |-> <<>>, r |-> [n |-> Len(x), x |-> x, out |-> FALSE]]
              ELSE LET e == Sem!Eff(reg, cfg, Norm(c))
                   IN [w |-> e.w, r |-> IF c.o \in Sem!ValueOps \cup Sem!OtherResOps THEN e.r ELSE <<>>]
InDomain(c) == Sem!Pre(reg, cfg, Norm(c))

Used(c) == { id \in Ids : \E x \in DOMAIN c \cap {"a", "b", "d", "p", "m"} : c[x] = id } \ (IF "wide" \in DOMAIN c /\ c.o = "parse" THEN {c.d} ELSE {})
SetSeq(s) == LET RECURSIVE F(_)
                 F(t) == IF t = {} THEN <<>> ELSE LET y == CHOOSE y \in t : TRUE IN <<y>> \o F(t \ {y})
             IN F(s)
Emit(c, e) == PrintT(ToJson([l |-> TLCGet("level"), c |-> c, w |-> e.w, r |-> e.r,
                             pre |-> [j \in 1..Cardinality(Used(c)) |-> LET id == SetSeq(Used(c))[j] IN <<id, reg[id]>>]]))
Do(c) == /\ InDomain(c) = TRUE
         /\ Sure(c) = TRUE
         /\ LET e == Outcome(c) IN Emit(c, e) /\ reg' = Sem!Apply(reg, e.w)

(* ----------------------------- all transitions ---------------------------- *)
Blank == [id \in Ids |-> Sem!ZZero]
(* a cheap function that spreads the states over the processes *)
Sum(m) == LET RECURSIVE F(_, _)
              F(j, acc) == IF j > Len(m) THEN acc ELSE F(j + 1, (acc * 31 + m[j] + 1) % 65521)
          IN F(1, 7)
Mine(x, y) == ((Sum(x.m) * 5 + Sum(y.m) * 2 + x.s + 3 * y.s + 4) \div 3) % Parts = Part
InitAll ==
    \/ /\ PairRegs # <<>>
       /\ \E pv \in PairVals : Mine(pv[1], pv[2]) /\ reg = [Blank EXCEPT ![PairRegs[1]] = pv[1], ![PairRegs[2]] = pv[2]]
       /\ done = -1
    \/ \E x \in OneRegs : \E v \in OneVals(x) :
          /\ Mine(v, v)
          /\ reg = IF Group = "C13" THEN [Blank EXCEPT ![8] = v, ![0] = Sem!Z(1, LowBits(FromHex("123456789abcdef012345678"), N)), ![1] = Sem!Z(1, FromInt(2)),
                                                       ![2] = Sem!Z(1, FromHex("ffffffffff01"))]
                   ELSE [Blank EXCEPT ![x] = v]
          /\ done = x
NextAll == /\ done # -2
           /\ \E c \in IF done = -1 THEN PairCalls ELSE OneCalls(done) : Do(c)
           /\ done' = -2

(* ------------------------------- random walks ----------------------------- *)
Rand(s) == RandomElement(s)
RandHex(k) == LET RECURSIVE F(_)
                  F(n) == IF n = 0 THEN "" ELSE F(n - 1) \o Rand({ HexChar[j] : j \in 1..16 })
              IN F(k)
RandBlock(z) == IF Rand(1..3) = z THEN RandHex(8) ELSE Rand(Blocks)
RandNat(w) == LET RECURSIVE F(_)
                  F(n) == IF n = 0 THEN "" ELSE F(n - 1) \o RandBlock(1)
              IN FromHex(F(Rand(1..(w \div 32))))
RandVal(id) == Sem!Z(IF Kind(id) = "s" THEN Rand({1, -1}) ELSE 1, RandNat(Width(cfg, id)))
RR == {0, 1, 2, 3}
SR == {4, 5, 6, 7}
UBin(ops) == [o : ops, f : {"rr"}, d : RR, a : RR, b : RR] \cup [o : ops, f : {"=r"}, d : RR, b : RR]
SBin(ops) == [o : ops, f : {"rr"}, d : SR, a : SR, b : SR] \cup [o : ops, f : {"=r"}, d : SR, b : SR]
UBinI(ops) == UNION { [o : ops, f : {"ri", "rc", "ir"}, d : RR, a : RR, t : {t}, k : LitsOf(t)] \cup [o : ops, f : {"=i"}, d : RR, t : {t}, k : LitsOf(t)] : t \in UAll }
SBinI(ops) == UNION { [o : ops, f : {"ri", "rc", "ir"}, d : SR, a : SR, t : {t}, k : LitsOf(t)] \cup [o : ops, f : {"=i"}, d : SR, t : {t}, k : LitsOf(t)] : t \in UAll \cup IAll }
(* the calls of a walk, in classes that are equally likely *)
Classes ==
    CASE Group = "C01" -> <<UBin({"add", "sub"}), UBinI({"add", "sub"}), [o : {"neg", "pos"}, d : RR, a : RR], [o : {"inc", "dec"}, f : {"pre", "post"}, d : RR]>>
      [] Group = "C02" -> <<UBin({"mul"}), UBinI({"mul"})>>
      [] Group = "C03" -> <<UBin({"div", "mod"}), UBinI({"div", "mod"}), [o : {"dm"}, f : {"out", "pair"}, d : RR, d2 : RR, a : RR, b : RR]>>
      [] Group = "C04" -> <<UBin({"and", "or", "xor"}), UBinI({"and", "or", "xor"}), [o : {"not"}, d : RR, a : RR]>>
      [] Group = "C05" -> <<[o : {"shl", "shr"}, f : {"r"}, d : RR, a : RR, t : {"u16", "u32", "u64"}, n : { HexOf(j) : j \in 0..(N + 1) }],
                            [o : {"shl", "shr"}, f : {"="}, d : RR, t : {"u16", "u32", "u64"}, n : { HexOf(j) : j \in 0..40 }]>>
      [] Group = "C07" -> <<SBin({"add", "sub"}), SBinI({"add", "sub"}), [o : {"neg", "pos"}, d : SR, a : SR], [o : {"inc", "dec"}, f : {"pre", "post"}, d : SR],
                            [o : {"inv"}, d : SR]>>
      [] Group = "C08" -> <<SBin({"mul"}), SBinI({"mul"})>>
      [] Group = "C09" -> <<SBin({"div", "mod"}), SBinI({"div", "mod"}), [o : {"dm"}, f : {"out"}, d : SR, d2 : SR, a : SR, b : SR]>>
      [] Group \in {"C11"} -> <<SBin({"add", "sub", "div", "mod"}), SBin({"sub", "mod"}), SBinI({"add", "sub", "mul", "div", "mod"}),
                            [o : {"neg", "pos"}, d : SR, a : SR], [o : {"inc", "dec"}, f : {"pre", "post"}, d : SR], [o : {"inv"}, d : SR],
                            [o : {"pcast"}, a : SR, d : {10, 11}] \cup [o : {"pcast"}, a : {10, 11}, d : SR], [o : {"qry"}, a : SR],
                            [o : {"copy"}, f : {"ctor", "asg", "mv"}, a : SR, d : SR] \cup [o : {"swap"}, a : SR, b : SR], [o : {"sqrt"}, a : SR, d : SR]>>
      [] Group = "C15" -> <<Fields(0), Fields(1), Fields(4), Fields(5)>>
      [] Group = "C23" -> <<[o : {"pcast"}, a : RR, d : {8, 9}] \cup [o : {"pcast"}, a : {8, 9}, d : RR], [o : {"pcast"}, a : SR, d : {10, 11}] \cup [o : {"pcast"}, a : {10, 11}, d : SR],
                            [o : {"ucast"}, a : SR, d : RR], [o : {"fromu"}, a : RR, d : SR], [o : {"copy"}, f : {"ctor", "asg", "mv"}, a : RR, d : RR],
                            [o : {"copy"}, f : {"ctor", "asg", "mv"}, a : SR, d : SR], [o : {"swap"}, a : RR, b : RR] \cup [o : {"swap"}, a : SR, b : SR]>>
      [] Group = "C24" -> <<UBin({"add", "sub", "mul", "div", "mod", "and", "or", "xor"}), UBinI({"add", "mul", "div", "xor"}), SBin({"sub", "mul", "div", "mod"}),
                            [o : {"gcd", "lcm"}, d : RR, a : RR, b : RR], [o : {"inc", "dec"}, f : {"pre", "post"}, d : RR \cup SR],
                            [o : {"swap"}, a : RR, b : RR] \cup [o : {"swap"}, a : SR, b : SR], [o : {"dm"}, f : {"out", "pair"}, d : RR, d2 : RR, a : RR, b : RR],
                            [o : {"pcast"}, a : RR, d : {8, 9}] \cup [o : {"pcast"}, a : {8, 9}, d : RR], [o : {"sqrt"}, a : RR, d : RR]>>
      [] OTHER -> <<>>
LoadRegs == CASE Group \in {"C01", "C02", "C03", "C04", "C05"} -> RR [] Group \in {"C07", "C08", "C09"} -> SR
              [] Group = "C11" -> SR \cup {10} [] OTHER -> RR \cup SR \cup {8}
LoadIt(id, v) == LET c == [o |-> "load", d |-> id]
                 IN /\ PrintT(ToJson([l |-> TLCGet("level"), c |-> c, w |-> << <<id, v>> >>, r |-> <<>>, pre |-> <<>>]))
                    /\ reg' = [reg EXCEPT ![id] = v]
InitWalk == reg = Blank /\ done = 0
NextWalk == /\ IF Rand(1..5) = 1 \/ TLCGet("level") < 4
               THEN \E id \in {Rand(LoadRegs)} : \E v \in {RandVal(id)} : LoadIt(id, v)
               ELSE \E j \in {Rand(DOMAIN Classes)} : \E c \in {Rand(Classes[j])} :
                       IF InDomain(c) THEN Do(c)
                       ELSE \E id \in {Rand(LoadRegs)} : \E v \in {RandVal(id)} : LoadIt(id, v)
            /\ UNCHANGED done

Init == IF Style = "all" THEN InitAll ELSE InitWalk
Next == IF Style = "all" THEN NextAll ELSE NextWalk
Spec == Init /\ [][Next]_vars

Canonical == \A id \in Ids : /\ reg[id].s \in {-1, 0, 1} /\ (reg[id].s = 0) = (reg[id].m = Zero)
                             /\ Kind(id) = "u" => reg[id].s >= 0
                             /\ Len(reg[id].m) * 8 <= Width(cfg, id)
=============================================================================
