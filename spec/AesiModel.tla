------------------------------ MODULE AesiModel ------------------------------
(* AesiSem at small widths, explored exhaustively: from every reachable        *)
(* combination of register values, every call of a group.  Each property is    *)
(* stated again, over built-in integers, bits, characters, and without the      *)
(* definitions of AesiSem, as an invariant about all calls of its group; the    *)
(* state graph is closed under calls, so histories of any length are covered.   *)
(*                                                                             *)
(* Registers: 0, 1, 2 Aeu<N>; 4, 5, 6 Aesi<N>; 8 Aeu<M>; 10 Aesi<M>.           *)
(* Only those in Live take part; the others stay zero.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, BigNat

CONSTANTS N, M, Group, Live, TextLen

VARIABLE reg

Ids == {0, 1, 2, 4, 5, 6, 8, 10}
Kind(id) == IF id \in {4, 5, 6, 10} THEN "s" ELSE "u"
Width(cf, id) == IF id \in {8, 10} THEN M ELSE N
cfg == [N |-> N, M |-> M]
SmallBits(t) == CASE t = "u1" -> 1 [] t \in {"u2", "i2"} -> 2 [] t \in {"u3", "i3"} -> 3
SmallSigned(t) == t \in {"i2", "i3"}
UTypes == {"u1", "u3"}
STypes == {"i2", "i3"}

Sem == INSTANCE AesiSem WITH Kd <- Kind, Wd <- Width, BlockBits <- 2, ByteBits <- 1,
                             TypeBits <- SmallBits, TypeSigned <- SmallSigned

(* ------------------------------ native values ----------------------------- *)
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
V(x) == x.s * ToInt(x.m)
Reg(n) == [s |-> Sgn(n), m |-> FromInt(Abs(n))]
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_)
HexOf(n) == IF n = 0 THEN "" ELSE HexOf(n \div 16) \o HexDigits[(n % 16) + 1]
LitOf(n) == <<Sgn(n), HexOf(Abs(n))>>
Full(k, w) == IF k = "u" THEN 0..(2^w - 1) ELSE -(2^w - 1)..(2^w - 1)
Values(id) == Full(Kind(id), Width(cfg, id))
Range(t) == IF SmallSigned(t) THEN -(2^(SmallBits(t) - 1))..(2^(SmallBits(t) - 1) - 1) ELSE 0..(2^SmallBits(t) - 1)
NatBit(n, j) == (n \div 2^j) % 2
Quo(x, y) == Sgn(x) * Sgn(y) * (Abs(x) \div Abs(y))
Rem(x, y) == x - y * Quo(x, y)

US == Live \cap {0, 1, 2}
SS == Live \cap {4, 5, 6}
LU == Live \cap {0, 1, 2, 8}
LS == Live \cap {4, 5, 6, 10}

(* ------------------------------- the calls -------------------------------- *)
Bin(ops, R) == [o : ops, f : {"rr"}, d : R, a : R, b : R] \cup [o : ops, f : {"=r"}, d : R, b : R]
BinI(ops, R, types) ==
    UNION { UNION { [o : ops, f : {"ri", "ir"}, d : R, a : R, t : {t}, kv : {v}, k : {LitOf(v)}]
                    \cup [o : ops, f : {"=i"}, d : R, t : {t}, kv : {v}, k : {LitOf(v)}] : v \in Range(t) } : t \in types }
Un(ops, R) == [o : ops, d : R, a : R]
Step(R) == [o : {"inc", "dec"}, f : {"pre", "post"}, d : R]
Shifts(R) == UNION { [o : {"shl", "shr"}, f : {"r"}, d : R, a : R, nv : {n}, n : {HexOf(n)}]
                     \cup [o : {"shl", "shr"}, f : {"="}, d : R, nv : {n}, n : {HexOf(n)}] : n \in (0..(N + 2)) \cup {3 * N} }
Cmps(R, Q) == [o : {"cmp"}, f : {"rr"}, a : R, b : Q]
CmpI(R, types) == UNION { UNION { [o : {"cmp"}, f : {"ri", "ir"}, a : R, t : {t}, kv : {v}, k : {LitOf(v)}] : v \in Range(t) } : t \in types }
Fields(R) ==
    UNION { UNION { [o : {"set" \o fl}, d : R, nv : {n}, n : {HexOf(n)}, vv : {v}, v : {HexOf(v)}]
                    : v \in 0..(IF fl = "blk" THEN 3 ELSE 1) }
            \cup [o : {"get" \o fl}, a : R, nv : {n}, n : {HexOf(n)}]
            : n \in (0..(N + 1)) \cup {3 * N}, fl \in {"bit", "byte", "blk"} }
(* texts of up to TextLen characters of a small alphabet, and every numeral *)
Alphabet == {48, 49, 50, 98, 120, 45, 32, 97}     \* 0 1 2 b x - space a
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE Texts(n - 1) \cup { Append(x, ch) : x \in { y \in Texts(n - 1) : Len(y) = n - 1 }, ch \in Alphabet }

Calls == CASE
       Group = "C01" -> Bin({"add", "sub"}, US) \cup BinI({"add", "sub"}, US, UTypes) \cup Un({"neg", "pos"}, US) \cup Step(US)
    [] Group = "C02" -> Bin({"mul"}, US) \cup BinI({"mul"}, US, UTypes)
    [] Group = "C03" -> Bin({"div", "mod"}, US) \cup BinI({"div", "mod"}, US, UTypes)
                        \cup [o : {"dm"}, f : {"out", "pair"}, d : US, d2 : US, a : US, b : US]
    [] Group = "C04" -> Bin({"and", "or", "xor"}, US) \cup BinI({"and", "or", "xor"}, US, UTypes) \cup Un({"not"}, US)
    [] Group = "C05" -> Shifts(US)
    [] Group = "C06" -> Cmps(LU, LU) \cup CmpI(US, UTypes)
    [] Group = "C07" -> Bin({"add", "sub"}, SS) \cup BinI({"add", "sub"}, SS, STypes \cup {"u3"}) \cup Un({"neg", "pos"}, SS)
                        \cup Step(SS) \cup [o : {"inv"}, d : SS]
    [] Group = "C08" -> Bin({"mul"}, SS) \cup BinI({"mul"}, SS, STypes \cup {"u3"})
    [] Group = "C09" -> Bin({"div", "mod"}, SS) \cup BinI({"div", "mod"}, SS, STypes \cup {"u3"})
                        \cup [o : {"dm"}, f : {"out"}, d : SS, d2 : SS, a : SS, b : SS]
    [] Group = "C10" -> Cmps(LS, LS) \cup CmpI(SS, STypes \cup {"u3"})
    [] Group = "C11" -> Bin({"add", "sub", "mul", "div", "mod"}, SS) \cup BinI({"add", "mul", "mod"}, SS, {"i2"}) \cup Un({"neg"}, SS) \cup Step(SS)
                        \cup [o : {"pcast"}, a : SS, d : Live \cap {10}] \cup [o : {"pcast"}, a : Live \cap {10}, d : SS]
                        \cup [o : {"sqrt"}, a : SS, d : SS] \cup [o : {"copy"}, f : {"asg"}, a : SS, d : SS] \cup [o : {"swap"}, a : SS, b : SS]
    [] Group = "C12" -> [o : {"gcd", "lcm"}, d : US, a : US, b : US] \cup [o : {"xgcd"}, d : US, d2 : US, d3 : US, a : US, b : US]
    [] Group = "C13" -> [o : {"powm"}, f : {"m"}, d : US, a : US, p : US, m : US] \cup [o : {"powm"}, f : {"x"}, d : US, a : US, p : Live \cap {8}, m : US]
    [] Group = "C14" -> [o : {"sqrt"}, d : US, a : US] \cup [o : {"sqrt"}, d : SS, a : SS]
                        \cup UNION { [o : {"pow2"}, d : US \cup SS, nv : {n}, n : {HexOf(n)}] : n \in 0..(2 * N) }
    [] Group = "C15" -> Fields(US \cup SS)
    [] Group = "C16" -> [o : {"qry"}, a : US \cup SS]
    [] Group = "C17" -> [o : {"parse"}, d : Live, x : Texts(TextLen)]
    [] Group = "C18" -> { c \in [o : {"out"}, a : Live, d : Live, base : {8, 10, 16}, up : BOOLEAN, sb : BOOLEAN, bk : BOOLEAN] :
                         Kind(c.a) = Kind(c.d) /\ Width(cfg, c.a) = Width(cfg, c.d) }
                        \cup [o : {"outf"}, a : Live, base : {8, 10, 16}, up : {FALSE}, sb : BOOLEAN, cap : 0..(N + 2)]
    [] Group = "C19" -> [o : {"gstr"}, a : Live, base : {2, 8, 10, 16}, up : BOOLEAN, sb : BOOLEAN, cap : 0..(N + 4)]
                            \cup [o : {"gstr"}, a : Live, base : {2, 8, 10, 16}, up : BOOLEAN, cap : {N, N + 4}]
    [] Group = "C20" -> [o : {"insq"}, as : { <<x, y>> : x \in Live, y \in Live }]
    [] Group = "C21" -> [o : {"wbin"}, a : US, big : BOOLEAN] \cup [o : {"wbin"}, a : US] \cup [o : {"wbinf"}, a : US, big : BOOLEAN, cap : 0..(N + 1)] \cup [o : {"rbin"}, d : US, x : [1..N -> 0..1]]
                            \cup [o : {"rbin"}, d : US, big : BOOLEAN, x : UNION { [1..k -> 0..1] : k \in 0..(N + 2) }]
    [] Group = "C22" -> UNION { UNION { [o : {"cons"}, f : {"ctor"}, d : US, t : {t}, kv : {v}, k : {LitOf(v)}] : v \in Range(t) } : t \in UTypes }
                        \cup UNION { UNION { [o : {"cons"}, f : {"ctor"}, d : SS, t : {t}, kv : {v}, k : {LitOf(v)}] : v \in Range(t) } : t \in UTypes \cup STypes }
                        \cup [o : {"icast"}, a : US \cup SS, t : UTypes \cup STypes]
    [] Group = "C23" -> [o : {"pcast"}, a : US, d : Live \cap {8}] \cup [o : {"pcast"}, a : Live \cap {8}, d : US]
                        \cup [o : {"pcast"}, a : SS, d : Live \cap {10}] \cup [o : {"pcast"}, a : Live \cap {10}, d : SS]
                        \cup [o : {"ucast"}, a : SS, d : US] \cup [o : {"fromu"}, a : US, d : SS]
                        \cup [o : {"copy"}, f : {"asg"}, a : US, d : US] \cup [o : {"copy"}, f : {"asg"}, a : SS, d : SS] \cup [o : {"swap"}, a : US, b : US]
    [] Group = "C26" -> UNION { [o : {"mpz"}, d : US \cup SS, kv : {v}, k : {LitOf(v)}] \cup [o : {"mpzeq"}, a : US \cup SS, kv : {v}, k : {LitOf(v)}]
                                : v \in -(2^N + 3)..(2^N + 3) }
    [] Group = "C24" -> Bin({"add", "sub", "mul", "and"}, US) \cup Bin({"div", "mod"}, US) \cup Step(US) \cup [o : {"swap"}, a : US, b : US]
                        \cup [o : {"dm"}, f : {"pair"}, d : US, d2 : US, a : US, b : US] \cup [o : {"gcd"}, d : US, a : US, b : US]
                        \cup Bin({"add", "sub", "mod"}, SS) \cup [o : {"swap"}, a : SS, b : SS]

InDomain(c) == Sem!Pre(reg, cfg, c)
Nondet == {"xgcd", "gstr", "insq"}

Init == reg = [id \in Ids |-> Sem!ZZero]
Load == \E id \in Live, v \in Full("s", M) : v \in Values(id) /\ reg' = [reg EXCEPT ![id] = Reg(v)]
Call == \E c \in Calls : c.o \notin Nondet /\ InDomain(c) = TRUE /\ reg' = Sem!Apply(reg, Sem!Eff(reg, cfg, c).w)
Next == Load \/ Call
Spec == Init /\ [][Next]_reg

(* ------------------------- the properties, natively ----------------------- *)
E(c) == Sem!Eff(reg, cfg, c)
After(c) == Sem!Apply(reg, E(c).w)
Arg1(c) == CASE c.f \in {"rr", "ri"} -> V(reg[c.a]) [] c.f \in {"=r", "=i"} -> V(reg[c.d]) [] c.f = "ir" -> c.kv
Arg2(c) == CASE c.f \in {"rr", "=r"} -> V(reg[c.b]) [] c.f \in {"ri", "=i"} -> c.kv [] c.f = "ir" -> V(reg[c.a])
New(c) == V(After(c)[c.d])
OnlyD(c) == \A id \in Ids : id = c.d \/ After(c)[id] = reg[id]
Res(c) == V(E(c).r)
All(P(_)) == \A c \in Calls : InDomain(c) => P(c)
BinOps == {"add", "sub", "mul", "div", "mod", "and", "or", "xor"}
W == 2^N

P01(c) == /\ OnlyD(c)
          /\ CASE c.o = "add" -> New(c) = (Arg1(c) + Arg2(c)) % W
               [] c.o = "sub" -> New(c) = (Arg1(c) - Arg2(c)) % W
               [] c.o = "neg" -> (New(c) + V(reg[c.a])) % W = 0 /\ New(c) \in 0..(W - 1)
               [] c.o = "pos" -> New(c) = V(reg[c.a])
               [] c.o = "inc" -> New(c) = (V(reg[c.d]) + 1) % W /\ Res(c) = IF c.f = "post" THEN V(reg[c.d]) ELSE New(c)
               [] c.o = "dec" -> New(c) = (V(reg[c.d]) - 1) % W /\ Res(c) = IF c.f = "post" THEN V(reg[c.d]) ELSE New(c)
P02(c) == OnlyD(c) /\ New(c) = (Arg1(c) * Arg2(c)) % W
DivMod(x, y, q, r) == y # 0 /\ x = q * y + r /\ 0 <= r /\ r < y
P03(c) == IF c.o = "dm" THEN DivMod(V(reg[c.a]), V(reg[c.b]), V(After(c)[c.d]), V(After(c)[c.d2]))
                             /\ \A id \in Ids \ {c.d, c.d2} : After(c)[id] = reg[id]
          ELSE /\ OnlyD(c)
               /\ IF c.o = "div" THEN \E r \in 0..(W - 1) : DivMod(Arg1(c), Arg2(c), New(c), r)
                  ELSE \E q \in 0..(W - 1) : DivMod(Arg1(c), Arg2(c), q, New(c))
P04(c) == /\ OnlyD(c)
          /\ New(c) \in 0..(W - 1)
          /\ \A j \in 0..(N - 1) :
                LET z == NatBit(New(c), j) IN
                IF c.o = "not" THEN z = 1 - NatBit(V(reg[c.a]), j)
                ELSE LET x == NatBit(Arg1(c), j)  y == NatBit(Arg2(c), j)
                     IN CASE c.o = "and" -> (z = 1) = (x = 1 /\ y = 1)
                          [] c.o = "or"  -> (z = 1) = (x = 1 \/ y = 1)
                          [] c.o = "xor" -> (z = 1) = (x # y)
P05(c) == LET x == V(reg[IF c.f = "=" THEN c.d ELSE c.a])  z == New(c)
          IN /\ OnlyD(c) /\ Res(c) = z /\ z \in 0..(W - 1)
             /\ IF c.nv >= N THEN z = x
                ELSE \A j \in 0..(N - 1) :
                        NatBit(z, j) = IF c.o = "shl" THEN (IF j >= c.nv THEN NatBit(x, j - c.nv) ELSE 0)
                                       ELSE (IF j + c.nv < N THEN NatBit(x, j + c.nv) ELSE 0)
PCmp(c) == LET x == IF c.f = "ir" THEN c.kv ELSE V(reg[c.a])
               y == CASE c.f = "rr" -> V(reg[c.b]) [] c.f = "ri" -> c.kv [] c.f = "ir" -> V(reg[c.a])
               r == E(c).r
           IN /\ After(c) = reg
              /\ (r[1] = 1) = (x = y) /\ (r[2] = 1) = (x # y) /\ (r[3] = 1) = (x < y) /\ (r[4] = 1) = (x <= y)
              /\ (r[5] = 1) = (x > y) /\ (r[6] = 1) = (x >= y) /\ r[7] = Sgn(x - y)
              /\ Len(r) = 8 => r[8] = r[7]
P07(c) == /\ OnlyD(c)
          /\ CASE c.o = "add" -> New(c) = Arg1(c) + Arg2(c)
               [] c.o = "sub" -> New(c) = Arg1(c) - Arg2(c)
               [] c.o = "neg" -> New(c) = -V(reg[c.a])
               [] c.o = "inv" -> New(c) = -V(reg[c.d])
               [] c.o = "pos" -> New(c) = V(reg[c.a])
               [] c.o \in {"inc", "dec"} -> New(c) = V(reg[c.d]) + (IF c.o = "inc" THEN 1 ELSE -1)
                                            /\ Res(c) = IF c.f = "post" THEN V(reg[c.d]) ELSE New(c)
P08(c) == OnlyD(c) /\ New(c) = Arg1(c) * Arg2(c)
(* x = q*y + r, |r| < |y|, and r is zero or has the sign of x *)
SDivMod(x, y, q, r) == y # 0 /\ x = q * y + r /\ Abs(r) < Abs(y) /\ (r = 0 \/ Sgn(r) = Sgn(x))
P09(c) == IF c.o = "dm" THEN SDivMod(V(reg[c.a]), V(reg[c.b]), V(After(c)[c.d]), V(After(c)[c.d2]))
          ELSE /\ OnlyD(c)
               /\ IF c.o = "div" THEN SDivMod(Arg1(c), Arg2(c), New(c), Arg1(c) - New(c) * Arg2(c))
                  ELSE SDivMod(Arg1(c), Arg2(c), Quo(Arg1(c), Arg2(c)), New(c))
P11(c) == \A id \in Ids : LET x == After(c)[id] IN (x.s = 0) = (V(x) = 0) /\ (x.s = 0) = (x.m = Zero)
Divides(x, y) == IF x = 0 THEN y = 0 ELSE y % x = 0
IsGcd(g, x, y) == Divides(g, x) /\ Divides(g, y) /\ \A h \in 1..(W - 1) : Divides(h, x) /\ Divides(h, y) => Divides(h, g)
P12(c) == LET x == V(reg[c.a])  y == V(reg[c.b]) IN
          CASE c.o = "gcd" -> OnlyD(c) /\ IsGcd(New(c), x, y)
            [] c.o = "lcm" -> OnlyD(c) /\ Divides(x, New(c)) /\ Divides(y, New(c))
                              /\ \A k \in 1..(W - 1) : (x # 0 /\ y # 0 /\ k % x = 0 /\ k % y = 0) => New(c) # 0 /\ New(c) <= k
            [] c.o = "xgcd" ->
                 LET Out(g, s, t) == [reg EXCEPT ![c.d] = Reg(g), ![c.d2] = Reg(s), ![c.d3] = Reg(t)]
                     ok == { p \in (0..(W - 1)) \X (0..(W - 1)) \X (0..(W - 1)) : Sem!Allowed(reg, cfg, c, Out(p[1], p[2], p[3]), <<>>) }
                 IN ok # {} /\ ok = { p \in (0..(W - 1)) \X (0..(W - 1)) \X (0..(W - 1)) : IsGcd(p[1], x, y) /\ (x * p[2] + y * p[3] - p[1]) % W = 0 }
RECURSIVE PowN(_, _, _)
PowN(x, p, m) == IF p = 0 THEN 1 % m ELSE (x * PowN(x, p - 1, m)) % m
P13(c) == OnlyD(c) /\ New(c) = PowN(V(reg[c.a]), V(reg[c.p]), V(reg[c.m]))
P14(c) == /\ OnlyD(c)
          /\ IF c.o = "pow2" THEN New(c) = IF c.nv < N THEN 2^(c.nv) ELSE 0
             ELSE LET x == V(reg[c.a])  r == New(c) IN IF x <= 0 THEN r = 0 ELSE r >= 0 /\ r * r <= x /\ x < (r + 1) * (r + 1)
FieldW(c) == IF c.o \in {"setblk", "getblk"} THEN 2 ELSE 1
P15(c) == LET w == FieldW(c) IN
          IF c.o \in {"setbit", "setbyte", "setblk"} THEN
             LET x == Abs(V(reg[c.d]))  z == Abs(New(c))
             IN /\ OnlyD(c)
                /\ \A j \in 0..(N - 1) : NatBit(z, j) = IF j \div w = c.nv THEN NatBit(c.vv, j % w) ELSE NatBit(x, j)
                /\ Sgn(New(c)) = IF Kind(c.d) = "u" THEN Sgn(z) ELSE Sgn(V(reg[c.d]))
          ELSE After(c) = reg /\ Res(c) = IF c.nv * w >= N THEN 0 ELSE (Abs(V(reg[c.a])) \div 2^(c.nv * w)) % 2^w
P16(c) == LET x == V(reg[c.a])  n == Abs(x)  r == E(c).r
              (* number of digits of w bits *)
              Count(w) == CHOOSE k \in 0..N : (k = 0 => n = 0) /\ n < 2^(k * w) /\ (k > 0 => n >= 2^((k - 1) * w))
          IN /\ r[1] = Count(1) /\ r[2] = Count(1) /\ r[3] = Count(2)
             /\ (r[4] = 1) = (n % 2 = 1) /\ (r[5] = 1) = (n % 2 = 0) /\ (r[6] = 1) = (x = 0) /\ r[7] = Width(cfg, c.a)
             /\ r[8] = Width(cfg, c.a) \div 2
             /\ Kind(c.a) = "s" => (r[9] = 1) = (x > 0) /\ (r[10] = 1) = (x < 0)
(* the number a text denotes: a fold over its characters *)
RECURSIVE Fold(_, _, _)
DV(ch) == CASE ch \in 48..57 -> ch - 48 [] ch = 97 -> 10 [] ch = 98 -> 11 [] OTHER -> 99
Fold(x, base, acc) == IF x = <<>> THEN acc
                      ELSE Fold(Tail(x), base, IF DV(Head(x)) < base THEN acc * base + DV(Head(x)) ELSE acc)
RECURSIVE Strip(_)
Strip(x) == IF x = <<>> \/ Head(x) \in {48, 49, 50, 97, 98, 120} THEN x ELSE Strip(Tail(x))
P17(c) == LET x == Strip(c.x)
              n == IF x = <<>> THEN 0
                   ELSE IF Len(x) > 1 /\ x[1] = 48 /\ x[2] = 98 THEN Fold(SubSeq(x, 3, Len(x)), 2, 0)
                   ELSE IF Len(x) > 1 /\ x[1] = 48 /\ x[2] = 120 THEN Fold(SubSeq(x, 3, Len(x)), 16, 0)
                   ELSE Fold(x, 10, 0)
              dashes == Cardinality({ j \in 1..Len(c.x) : c.x[j] = 45 })
              w == Width(cfg, c.d)
          IN OnlyD(c) /\ New(c) = (n % 2^w) * (IF Kind(c.d) = "s" /\ dashes % 2 = 1 THEN -1 ELSE 1)
DigitOf(ch, up) == IF ch \in 48..57 THEN ch - 48 ELSE IF up THEN (IF ch \in 65..70 THEN ch - 55 ELSE 99) ELSE (IF ch \in 97..102 THEN ch - 87 ELSE 99)
RECURSIVE Horner(_, _, _, _)
Horner(x, base, up, acc) == IF x = <<>> THEN acc ELSE Horner(Tail(x), base, up, acc * base + DigitOf(Head(x), up))
IsNumeral(x, n, base, up) == /\ Len(x) >= 1
                             /\ \A j \in 1..Len(x) : DigitOf(x[j], up) < base
                             /\ Len(x) > 1 => x[1] # 48
                             /\ Horner(x, base, up, 0) = n
Drop(x, n) == SubSeq(x, n + 1, Len(x))
HasPrefix(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
P18out(c) == LET v == V(reg[c.a])  r == E(c).r
              x == IF v < 0 THEN Drop(r, 1) ELSE r
              p == CASE c.base = 8 -> <<48, 111>> [] c.base = 16 -> <<48, 120>> [] OTHER -> <<>>
              pre == c.sb /\ c.base # 10 /\ ~(v = 0 /\ Kind(c.a) = "s")
          IN /\ v < 0 => r[1] = 45
             /\ pre => HasPrefix(x, p)
             /\ IsNumeral(Drop(x, IF pre THEN 2 ELSE 0), Abs(v), c.base, c.up)
             /\ (c.sb \/ c.base = 10) =>
                    LET z == Sem!ParseVal(r, Kind(c.a), Width(cfg, c.a)) IN V(z) = v      \* reads back
(* A failing destination gets the beginning of what an unlimited one gets. *)
P18(c) == IF c.o = "out" THEN P18out(c)
          ELSE LET full == [o |-> "out", a |-> c.a, d |-> c.a, base |-> c.base, up |-> c.up, sb |-> c.sb, bk |-> FALSE]
                   t == E(full).r  r == E(c).r
               IN /\ P18out(full)
                  /\ r[1] = (IF c.cap < Len(t) THEN 0 ELSE 1)
                  /\ r[2] = 1
                  /\ Len(r) = 2 + (IF c.cap < Len(t) THEN c.cap ELSE Len(t))
                  /\ \A j \in 3..Len(r) : r[j] = t[j - 2]
P19(c) == \* the outcomes the specification allows
          LET v == V(reg[c.a])
              p == CASE c.base = 2 -> <<48, 98>> [] c.base = 8 -> <<48, 111>> [] c.base = 16 -> <<48, 120>> [] OTHER -> <<>>
              sb == "sb" \in DOMAIN c /\ c.sb       \* (the argument is FALSE if it is left out)
              t == Sem!ZText(reg[c.a], c.base, c.up, sb)
              body == Drop(t, (IF v < 0 THEN 1 ELSE 0) + (IF sb THEN Len(p) ELSE 0))
              R(n, x, out) == [n |-> n, x |-> x, out |-> out]
          IN /\ IsNumeral(body, Abs(v), c.base, c.up)
             /\ ~Sem!Allowed(reg, cfg, c, reg, R(0, <<>>, TRUE))
             /\ c.cap > Len(t) => /\ Sem!Allowed(reg, cfg, c, reg, R(Len(t) + 1, Append(t, 0), FALSE))
                                  /\ ~Sem!Allowed(reg, cfg, c, reg, R(Len(t), t, FALSE))
             /\ ~Sem!Allowed(reg, cfg, c, reg, R(c.cap + 1, Append(t, 0), FALSE))
P20(c) == LET R(st, x) == [st |-> st, alone |-> <<<<49>>, <<50>>>>, x |-> x]
          IN /\ Sem!Allowed(reg, cfg, c, reg, R(<<7, 7, 7>>, <<49, 59, 50, 59>>))
             /\ ~Sem!Allowed(reg, cfg, c, reg, R(<<7, 7, 8>>, <<49, 59, 50, 59>>))
             /\ ~Sem!Allowed(reg, cfg, c, reg, R(<<7, 8, 7>>, <<49, 59, 50, 59>>))
             /\ ~Sem!Allowed(reg, cfg, c, reg, R(<<7, 7, 7>>, <<49, 59, 51, 59>>))
(* little end first, as bits (ByteBits = 1): blocks of two, in either order *)
Big(c) == "big" \in DOMAIN c => c.big      \* (TRUE if the argument is left out)
P21(c) == IF c.o = "wbin" THEN
             LET r == E(c).r  x == V(reg[c.a])
             IN /\ Len(r) = N
                /\ \A j \in 0..(N - 1) : r[(IF Big(c) THEN N - 2 - 2 * (j \div 2) ELSE 2 * (j \div 2)) + (j % 2) + 1] = NatBit(x, j)
                /\ Sem!FromRaw(r, N, Big(c)) = reg[c.a].m
          ELSE IF c.o = "wbinf" THEN
             LET r == E(c).r  x == V(reg[c.a])
             IN /\ r[1] = (IF c.cap < N THEN 0 ELSE 1)
                /\ Len(r) = 1 + (IF c.cap < N THEN c.cap ELSE N)
                /\ \A j \in 0..(N - 1) : LET p == (IF Big(c) THEN N - 2 - 2 * (j \div 2) ELSE 2 * (j \div 2)) + (j % 2) + 1
                                         IN p <= c.cap => r[p + 1] = NatBit(x, j)
          ELSE /\ OnlyD(c)
               /\ LET r == E(c).r
                  IN /\ r[1] = (IF Len(c.x) < N THEN Len(c.x) ELSE N)
                     /\ r[2] = (IF Len(c.x) < N THEN 0 ELSE 1)
                     /\ \A j \in 1..N : r[j + 2] = (IF N + j <= Len(c.x) THEN c.x[N + j] ELSE 0)
               /\ \A j \in 0..(N - 1) : LET at == (IF Big(c) THEN N - 2 - 2 * (j \div 2) ELSE 2 * (j \div 2)) + (j % 2) + 1
                                        IN NatBit(New(c), j) = IF at <= Len(c.x) THEN c.x[at] ELSE 0
P22(c) == IF c.o = "cons" THEN OnlyD(c) /\ New(c) = c.kv
          ELSE LET x == V(reg[c.a])  b == SmallBits(c.t)  r == Res(c)
               IN /\ r \in Range(c.t)
                  /\ x \in Range(c.t) => r = x
                  /\ SmallSigned(c.t) => (r - x) % 2^b = 0
                  /\ ~SmallSigned(c.t) => (r - Abs(x)) % 2^b = 0
P23(c) == IF c.o = "swap" THEN After(c)[c.a] = reg[c.b] /\ After(c)[c.b] = reg[c.a]
          ELSE LET x == V(reg[c.a])  w == Width(cfg, c.d)
               IN /\ OnlyD(c)
                  /\ New(c) = IF c.o = "pcast" THEN Sgn(x) * (Abs(x) % 2^w) ELSE IF c.o = "ucast" THEN Abs(x) ELSE x
(* the same call on equal copies in other registers has the same outcome; nothing else changes *)
Dests(c) == IF c.o = "swap" THEN {c.a, c.b} ELSE IF c.o = "dm" THEN {c.d, c.d2} ELSE {c.d}
P24(c) == /\ \A id \in Ids \ Dests(c) : After(c)[id] = reg[id]
          /\ ("f" \in DOMAIN c /\ c.f \in {"=r", "pre"})      \* denotes its object, and nothing else will do
                => LET Accepts(s) == Sem!Allowed(reg, cfg, [self |-> s] @@ c, After(c), E(c).r) IN Accepts(TRUE) /\ ~Accepts(FALSE)
          /\ \A e \in Calls :
                (e.o = c.o /\ DOMAIN e = DOMAIN c /\ ("f" \in DOMAIN c => e.f = c.f) /\ InDomain(e)
                 /\ (\A x \in DOMAIN c \cap {"a", "b"} : Kind(e[x]) = Kind(c[x]) /\ reg[e[x]] = reg[c[x]])
                 /\ (("f" \in DOMAIN c /\ c.f \in {"=r", "pre", "post"}) => reg[e.d] = reg[c.d])
                 /\ ("d" \in DOMAIN c => Kind(e.d) = Kind(c.d)))
                => IF c.o = "swap" THEN After(e)[e.a] = After(c)[c.a] /\ After(e)[e.b] = After(c)[c.b]
                   ELSE After(e)[e.d] = After(c)[c.d] /\ (c.o = "dm" => After(e)[e.d2] = After(c)[c.d2])
P26(c) == IF c.o = "mpz" THEN OnlyD(c) /\ New(c) = IF Kind(c.d) = "u" THEN Abs(c.kv) % W ELSE c.kv
          ELSE E(c).r = IF V(reg[c.a]) = c.kv THEN <<1, 1>> ELSE <<0, 0>>

Property == CASE Group = "C01" -> All(P01) [] Group = "C02" -> All(P02) [] Group = "C03" -> All(P03) [] Group = "C04" -> All(P04)
              [] Group = "C05" -> All(P05) [] Group = "C06" -> All(PCmp) [] Group = "C07" -> All(P07) [] Group = "C08" -> All(P08)
              [] Group = "C09" -> All(P09) [] Group = "C10" -> All(PCmp) [] Group = "C11" -> All(P11) [] Group = "C12" -> All(P12)
              [] Group = "C13" -> All(P13) [] Group = "C14" -> All(P14) [] Group = "C15" -> All(P15) [] Group = "C16" -> All(P16)
              [] Group = "C17" -> All(P17) [] Group = "C18" -> All(P18) [] Group = "C19" -> All(P19) [] Group = "C20" -> All(P20)
              [] Group = "C21" -> All(P21) [] Group = "C22" -> All(P22) [] Group = "C23" -> All(P23) [] Group = "C24" -> All(P24)
              [] Group = "C26" -> All(P26)

(* Every object always holds a canonical number of its width. *)
Canonical == \A id \in Ids : /\ reg[id].s \in {-1, 0, 1} /\ (reg[id].s = 0) = (reg[id].m = Zero)
                             /\ V(reg[id]) \in Values(id)
=============================================================================
