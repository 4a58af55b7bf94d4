----------------------------- MODULE BigNatCheck -----------------------------
(* The Java overrides of BigNat agree with the TLA+ definitions: on all pairs  *)
(* of small numbers and on pairs built from boundary digit patterns and        *)
(* pseudo-random digits of up to MaxLen digits.                                *)
EXTENDS BigNat, FiniteSets

CONSTANTS MaxLen, Seeds

VARIABLES x, y

Small == { FromInt(n) : n \in {0, 1, 2, 3, 7, 16, 127, 128, 255, 256, 257, 511, 65535, 65536, 65537, 16777215} }
RECURSIVE Rnd(_, _)
Rnd(v, n) == IF n = 0 THEN <<>> ELSE LET u == (v * 1103 + 12345) % 65521 IN <<(u \div 7) % 256>> \o Rnd(u, n - 1)
Patterns == { Trim([i \in 1..n |-> IF (i + s) % 3 = 0 THEN 255 ELSE IF s % 2 = 0 THEN 0 ELSE 128]) : n \in 1..MaxLen, s \in 0..3 }
            \cup { [i \in 1..n |-> 255] : n \in 1..MaxLen }
            \cup { Trim(Rnd(s, (s % MaxLen) + 1)) : s \in Seeds }
Numbers == Small \cup Patterns

Init == x \in Numbers /\ y = Zero
Next == y = Zero /\ y' \in Numbers /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y>>

Agree ==
    /\ IsBigNat(x) /\ IsBigNat(y)
    /\ Cmp(x, y) = P_Cmp(x, y)
    /\ Add(x, y) = P_Add(x, y)
    /\ Cmp(x, y) >= 0 => Sub(x, y) = P_Sub(x, y)
    /\ Mul(x, y) = P_Mul(x, y)
    /\ y # Zero => Div(x, y) = P_Div(x, y) /\ Mod(x, y) = P_Mod(x, y)
    /\ Gcd(x, y) = P_Gcd(x, y)
    /\ y # Zero /\ Len(x) < 4 /\ Len(y) < 4 => PowMod(x, y, y) = P_PowMod(x, y, y) /\ PowMod(y, x, y) = P_PowMod(y, x, y) /\ PowMod(x, x, y) = P_PowMod(x, x, y)
    /\ BitAnd(x, y) = P_And(x, y)
    /\ BitOr(x, y) = P_Or(x, y)
    /\ BitXor(x, y) = P_Xor(x, y)
    /\ Len(y) = 1 => LET k == y[1] IN
          /\ Pow2(k) = P_Pow2(k)
          /\ LowBits(x, k) = P_LowBits(x, k)
          /\ Shl(x, k) = P_Shl(x, k)
          /\ Shr(x, k) = P_Shr(x, k)
AgreeUnary ==
    y = Zero =>
    /\ BitLen(x) = P_BitLen(x)
    /\ Sqrt(x) = P_Sqrt(x)
    /\ (Len(x) < 4 => ToInt(x) = P_ToInt(x) /\ FromInt(P_ToInt(x)) = P_FromInt(P_ToInt(x)))
    /\ \A base \in {2, 8, 10, 16} : LET ds == P_Digits(x, base) IN
          Digits(x, base) = ds /\ FromDigits(ds, base) = x /\ P_FromDigits(ds, base) = x
    /\ \A base \in {64, 256} : LET ds == [j \in 1..(2 * Len(x)) |-> IF j % 2 = 1 THEN j ELSE x[j \div 2] % base]
                               IN FromDigits(ds, base) = P_FromDigits(ds, base)
    /\ FromHex("00ff10") = P_FromHex("00ff10") /\ FromHex("") = Zero /\ FromHex("0") = Zero
    /\ FromHex("123456789abcdef0") = P_FromHex("123456789abcdef0")
=============================================================================
