------------------------------- MODULE AesiPure ------------------------------
(* Trace validation against a weaker specification: the library is some         *)
(* function.  The outcome of a call (new values of its documented destinations  *)
(* and the value returned) is determined by the operation and the values of its *)
(* operands - not by which objects hold them (aliasing), by earlier calls, by   *)
(* other threads, or by being evaluated by the compiler - and nothing but the   *)
(* documented destinations changes.  What the function is, the other modules    *)
(* say; this one holds even where a result is wrong.                             *)
(*                                                                             *)
(* A chunk is a sequence of runs separated by "reset" events, which set every   *)
(* register to zero: the same calls on other registers, in other orders, in     *)
(* other threads, at compile time.  memo is the part of the function seen so    *)
(* far in the chunk.                                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, BigNat

VARIABLES i, reg, shared, memo
vars == <<i, reg, shared, memo>>

Ids == 0..13
Log == ndJsonDeserialize(IOEnv.TRACE)
LogLen == Len(Log)
Starts == { j \in 1..LogLen : Log[j].o = "init" }
ZZero == [s |-> 0, m |-> Zero]
Writes(ws) == [j \in 1..Len(ws) |-> <<ws[j][1], [s |-> ws[j][2], m |-> FromHex(ws[j][3])]>>]
RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(rg, w, j) == IF j > Len(w) THEN rg ELSE ApplyFrom([rg EXCEPT ![w[j][1]] = w[j][2]], w, j + 1)
Apply(rg, w) == ApplyFrom(rg, w, 1)

Has(e, f) == f \in DOMAIN e
(* Registers that the call may change, and registers it reads. *)
Dests(e) == (IF Has(e, "d") /\ ~(e.o = "out" /\ ~e.bk) THEN {e.d} ELSE {}) \cup (IF Has(e, "d2") THEN {e.d2} ELSE {})
            \cup (IF Has(e, "d3") THEN {e.d3} ELSE {}) \cup (IF e.o = "swap" THEN {e.a, e.b} ELSE {})
InPlace == {"inc", "dec", "inv", "setbit", "setbyte", "setblk"}
DestRead(e) == e.o \in InPlace \/ (Has(e, "f") /\ e.f \in {"=", "=r", "=i"})
Opt(e, f, rg) == IF Has(e, f) THEN <<rg[e[f]]>> ELSE <<>>
OperandValues(e, rg) == Opt(e, "a", rg) \o Opt(e, "b", rg) \o Opt(e, "p", rg) \o Opt(e, "m", rg)
                        \o (IF DestRead(e) THEN Opt(e, "d", rg) ELSE <<>>)
                        \o (IF Has(e, "as") THEN [j \in 1..Len(e.as) |-> rg[e.as[j]]] ELSE <<>>)
KindOf(id) == IF id \in {4, 5, 6, 7, 10, 11, 13} THEN (IF id \in 8..11 THEN "sM" ELSE "sN")
              ELSE (IF id \in 8..11 THEN "uM" ELSE "uN")
OptKind(e, f) == IF Has(e, f) THEN KindOf(e[f]) ELSE ""
Key(e, rg) == <<[x \in DOMAIN e \ {"a", "b", "d", "d2", "d3", "p", "m", "w", "r", "as", "oob", "self"} |-> e[x]],
                <<OptKind(e, "a"), OptKind(e, "b"), OptKind(e, "p"), OptKind(e, "d")>>,
                OperandValues(e, rg)>>
Outcome(e, new) == << IF e.o = "out" /\ ~e.bk THEN <<>> ELSE Opt(e, "d", new), Opt(e, "d2", new), Opt(e, "d3", new),
                      IF e.o = "swap" THEN <<new[e.a], new[e.b]>> ELSE <<>>,
                      IF Has(e, "r") THEN <<e.r>> ELSE <<>> >>

Init == \E j \in Starts :
            /\ i = j + 1
            /\ shared = Apply([id \in Ids |-> ZZero], Writes(Log[j].w))
            /\ reg = shared
            /\ memo = <<>>

AtEnd == IF i > LogLen THEN TRUE ELSE Log[i].o = "init"
After(e) == Apply(reg, Writes(e.w))

Accepts(e) ==
    /\ e.o # "crash"
    /\ "oob" \notin DOMAIN e
    /\ "self" \in DOMAIN e => e.self          \* an assignment, ++x, --x denote the object itself
    /\ LET new == After(e)
           key == Key(e, reg)
       IN /\ \A id \in Ids : id \in Dests(e) \/ new[id] = reg[id]
          /\ key \in DOMAIN memo => memo[key] = Outcome(e, new)

Reset == /\ ~AtEnd /\ Log[i].o = "reset"
         /\ reg' = shared /\ i' = i + 1 /\ UNCHANGED <<shared, memo>>

Consume == /\ ~AtEnd
           /\ LET e == Log[i]
              IN /\ e.o # "reset"
                 /\ Accepts(e) = TRUE
                 /\ reg' = After(e)
                 /\ memo' = IF e.o = "load" THEN memo ELSE (Key(e, reg) :> Outcome(e, After(e))) @@ memo
           /\ i' = i + 1
           /\ UNCHANGED shared

Reject == /\ ~AtEnd
          /\ LET e == Log[i] IN e.o # "reset" /\ Accepts(e) = FALSE
          /\ PrintT(<<"REJECT", i>>)
          /\ i' = LogLen + 1 + i
          /\ UNCHANGED <<reg, shared, memo>>

Next == Reset \/ Consume \/ Reject \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* The log position identifies a state: a log is one execution. *)
View == i
=============================================================================
