-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers of any size.  TLC's integers are 32 bits wide, the numbers  *)
(* of the library are up to 8192 bits wide, so a natural number is represented *)
(* as the little-endian sequence of its base-256 digits without leading        *)
(* (trailing in the sequence) zeros: 0 is <<>>, 258 is <<2, 1>>.  Equality of  *)
(* numbers is therefore equality of values.                                    *)
(*                                                                             *)
(* Every operator is defined here in plain TLA+ (P_xxx).  The operators used   *)
(* by the other modules (xxx == P_xxx) are additionally overridden by          *)
(* java/aesi/BigNatOverrides.java for speed when that class is on TLC's        *)
(* override list; BigNatCheck.tla compares the two definitions.                *)
EXTENDS Naturals, Integers, Sequences, TLC

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x >= y THEN x ELSE y

RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

IsBigNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..255
               /\ a # <<>> => a[Len(a)] # 0

RECURSIVE P_FromInt(_)
P_FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o P_FromInt(n \div 256)

(* Only for numbers below 2^31. *)
RECURSIVE P_ToInt(_)
P_ToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + 256 * P_ToInt(Tail(a))

(* ------------------------------- comparison ------------------------------- *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
P_Cmp(a, b) == IF Len(a) < Len(b) THEN -1
               ELSE IF Len(a) > Len(b) THEN 1
               ELSE CmpFrom(a, b, Len(a))

(* ------------------------------ addition etc. ----------------------------- *)
RECURSIVE AddC(_, _, _, _)
AddC(a, b, c, i) == IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET t == Dig(a, i) + Dig(b, i) + c
                         IN <<t % 256>> \o AddC(a, b, t \div 256, i + 1)
P_Add(a, b) == AddC(a, b, 0, 1)

RECURSIVE SubC(_, _, _, _)
SubC(a, b, c, i) == IF i > Len(a) THEN <<>>
                    ELSE LET t == 256 + a[i] - Dig(b, i) - c
                         IN <<t % 256>> \o SubC(a, b, 1 - (t \div 256), i + 1)
(* a - b for a >= b *)
P_Sub(a, b) == Trim(SubC(a, b, 0, 1))

RECURSIVE MulDig(_, _, _, _)
MulDig(a, d, c, i) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                      ELSE LET t == a[i] * d + c
                           IN <<t % 256>> \o MulDig(a, d, t \div 256, i + 1)
RECURSIVE P_Mul(_, _)
P_Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE LET rest == P_Mul(a, Tail(b))
                    IN P_Add(Trim(MulDig(a, Head(b), 0, 1)),
                             IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

(* ---------------------------- powers of two ------------------------------- *)
P_Pow2(k) == [i \in 1..(k \div 8) |-> 0] \o <<2 ^ (k % 8)>>
(* a mod 2^k *)
P_LowBits(a, k) ==
    LET n == k \div 8
        hi == IF n + 1 <= Len(a) THEN <<a[n + 1] % (2 ^ (k % 8))>> ELSE <<>>
    IN Trim(SubSeq(a, 1, IF n < Len(a) THEN n ELSE Len(a)) \o hi)
P_Shl(a, k) == IF a = <<>> THEN <<>>
               ELSE [i \in 1..(k \div 8) |-> 0] \o MulDig(a, 2 ^ (k % 8), 0, 1)
(* floor(a / 2^k) *)
P_Shr(a, k) ==
    LET n == k \div 8
        b == k % 8
        m == Len(a) - n
    IN IF m <= 0 THEN <<>>
       ELSE Trim([i \in 1..m |-> (a[i + n] \div (2 ^ b)) + ((Dig(a, i + n + 1) * (2 ^ (8 - b))) % 256)])
RECURSIVE DigLen(_)
DigLen(d) == IF d = 0 THEN 0 ELSE 1 + DigLen(d \div 2)
P_BitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + DigLen(a[Len(a)])
(* bit i (from 0) of a *)
Bit(a, i) == (Dig(a, (i \div 8) + 1) \div (2 ^ (i % 8))) % 2

(* --------------------------------- division ------------------------------- *)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(a, d, i, q, r) ==
    IF i < 0 THEN <<q, r>>
    ELSE LET r2 == P_Add(P_Add(r, r), P_FromInt(Bit(a, i)))
             ge == P_Cmp(r2, d) >= 0
         IN LongDiv(a, d, i - 1,
                    P_Add(P_Add(q, q), IF ge THEN <<1>> ELSE <<>>),
                    IF ge THEN P_Sub(r2, d) ELSE r2)
(* d # 0 *)
P_Div(a, d) == LongDiv(a, d, P_BitLen(a) - 1, <<>>, <<>>)[1]
P_Mod(a, d) == LongDiv(a, d, P_BitLen(a) - 1, <<>>, <<>>)[2]

(* Greatest common divisor, with P_Gcd(0, 0) = 0. *)
RECURSIVE P_Gcd(_, _)
P_Gcd(a, b) == IF b = <<>> THEN a ELSE P_Gcd(b, P_Mod(a, b))

(* b^e modulo m for m # 0, reading the bits of e from the most significant one. *)
RECURSIVE PowModFrom(_, _, _, _, _)
PowModFrom(b, e, m, i, acc) ==
    IF i < 0 THEN acc
    ELSE LET sq == P_Mod(P_Mul(acc, acc), m)
         IN PowModFrom(b, e, m, i - 1, IF Bit(e, i) = 1 THEN P_Mod(P_Mul(sq, b), m) ELSE sq)
P_PowMod(b, e, m) == PowModFrom(b, e, m, P_BitLen(e) - 1, P_Mod(<<1>>, m))

(* The largest r with r*r <= a, found bit by bit. *)
RECURSIVE SqrtFrom(_, _, _)
SqrtFrom(a, i, r) ==
    IF i < 0 THEN r
    ELSE LET t == P_Add(r, P_Pow2(i))
         IN SqrtFrom(a, i - 1, IF P_Cmp(P_Mul(t, t), a) <= 0 THEN t ELSE r)
P_Sqrt(a) == SqrtFrom(a, (P_BitLen(a) + 1) \div 2, <<>>)

(* --------------------------------- bitwise -------------------------------- *)
RECURSIVE DigOp(_, _, _, _)
DigOp(op, x, y, k) ==
    IF k = 0 THEN 0
    ELSE LET p == x % 2  q == y % 2
             z == CASE op = "and" -> p * q
                    [] op = "or"  -> p + q - p * q
                    [] op = "xor" -> (p + q) % 2
         IN z + 2 * DigOp(op, x \div 2, y \div 2, k - 1)
BitOp(op, a, b) == Trim([i \in 1..Max2(Len(a), Len(b)) |-> DigOp(op, Dig(a, i), Dig(b, i), 8)])
P_And(a, b) == BitOp("and", a, b)
P_Or(a, b)  == BitOp("or", a, b)
P_Xor(a, b) == BitOp("xor", a, b)

(* --------------------------------- numerals ------------------------------- *)
(* Most significant digit first; the numeral of 0 is the empty sequence. *)
RECURSIVE P_Digits(_, _)
P_Digits(a, base) == IF a = <<>> THEN <<>>
                     ELSE Append(P_Digits(P_Div(a, P_FromInt(base)), base),
                                 P_ToInt(P_Mod(a, P_FromInt(base))))
RECURSIVE P_FromDigits(_, _)
P_FromDigits(ds, base) == IF ds = <<>> THEN <<>>
                          ELSE P_Add(P_Mul(P_FromDigits(SubSeq(ds, 1, Len(ds) - 1), base), P_FromInt(base)),
                                     P_FromInt(ds[Len(ds)]))
HexDigit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
                CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                  [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
            @@ ("a" :> 10) @@ ("b" :> 11) @@ ("c" :> 12) @@ ("d" :> 13) @@ ("e" :> 14) @@ ("f" :> 15)
(* The number denoted by a lower-case hexadecimal string, "" being 0. *)
P_FromHex(s) == P_FromDigits([i \in 1..Len(s) |-> HexDigit[SubSeq(s, i, i)]], 16)

(* ------------- the operators the other modules use (overridden) ----------- *)
FromInt(n)          == P_FromInt(n)
ToInt(a)            == P_ToInt(a)
Cmp(a, b)           == P_Cmp(a, b)
Add(a, b)           == P_Add(a, b)
Sub(a, b)           == P_Sub(a, b)
Mul(a, b)           == P_Mul(a, b)
Div(a, b)           == P_Div(a, b)
Mod(a, b)           == P_Mod(a, b)
Pow2(k)             == P_Pow2(k)
LowBits(a, k)       == P_LowBits(a, k)
Shl(a, k)           == P_Shl(a, k)
Shr(a, k)           == P_Shr(a, k)
BitLen(a)           == P_BitLen(a)
Gcd(a, b)           == P_Gcd(a, b)
PowMod(b, e, m)     == P_PowMod(b, e, m)
Sqrt(a)             == P_Sqrt(a)
BitAnd(a, b)        == P_And(a, b)
BitOr(a, b)         == P_Or(a, b)
BitXor(a, b)        == P_Xor(a, b)
Digits(a, base)     == P_Digits(a, base)
FromDigits(ds, b)   == P_FromDigits(ds, b)
FromHex(s)          == P_FromHex(s)

Zero == <<>>
One  == <<1>>
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
=============================================================================
