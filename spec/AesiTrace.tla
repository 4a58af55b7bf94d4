------------------------------ MODULE AesiTrace ------------------------------
(* Trace validation: is a recorded execution of the real code a behaviour of   *)
(* the specification AesiSem?                                                   *)
(*                                                                             *)
(* The log (ndjson, file named by the environment variable TRACE) holds many    *)
(* executions ("chunks"), each started by a header event with o = "init" that   *)
(* gives the widths N and M and the initial registers (all others are zero).    *)
(* Every other event is one call of the library together with the registers     *)
(* that it changed (w) and what it returned (r).  TLC takes one step per event; *)
(* an event the specification does not allow is reported (REJECT).              *)
(*                                                                             *)
(* Registers: 0..3 Aeu<N>, 4..7 Aesi<N>, 8, 9 Aeu<M>, 10, 11 Aesi<M>, and two    *)
(* read-only objects shared by all threads, 12 (Aeu<N>) and 13 (Aesi<N>).       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, BigNat

CONSTANT Mode    \* "full": the whole semantics; "zero": only what C11 says

VARIABLES i,      \* position in the log of the next event
          cfg,    \* widths of this chunk
          reg     \* the registers

vars == <<i, cfg, reg>>

Ids == 0..13
Kind(id) == IF id \in {4, 5, 6, 7, 10, 11, 13} THEN "s" ELSE "u"
Width(cf, id) == IF id \in 8..11 THEN cf.M ELSE cf.N
BuiltinBits(t) == CASE t \in {"u8", "i8"} -> 8
                    [] t \in {"u16", "i16"} -> 16
                    [] t \in {"u32", "i32"} -> 32
                    [] t \in {"u64", "i64", "ull", "ll"} -> 64
                    [] t = "bool" -> 1
BuiltinSigned(t) == t \in {"i8", "i16", "i32", "i64", "ll"}

Sem == INSTANCE AesiSem WITH Kd <- Kind, Wd <- Width, BlockBits <- 32, ByteBits <- 8,
                             TypeBits <- BuiltinBits, TypeSigned <- BuiltinSigned

Log == ndJsonDeserialize(IOEnv.TRACE)
LogLen == Len(Log)
Starts == { j \in 1..LogLen : Log[j].o = "init" }

Obs(p) == [s |-> p[1], m |-> FromHex(p[2])]
Writes(ws) == [j \in 1..Len(ws) |-> <<ws[j][1], [s |-> ws[j][2], m |-> FromHex(ws[j][3])]>>]
ObsRes(e) == IF e.o \in Sem!ValueOps THEN Obs(e.r)
             ELSE IF e.o \in Sem!OtherResOps THEN e.r ELSE <<>>

Init == \E j \in Starts :
            /\ i = j + 1
            /\ cfg = [N |-> Log[j].N, M |-> Log[j].M]
            /\ reg = Sem!Apply([id \in Ids |-> Sem!ZZero], Writes(Log[j].w))

AtEnd == IF i > LogLen THEN TRUE ELSE Log[i].o = "init"

(* The registers the real code has after event e. *)
After(e) == Sem!Apply(reg, Writes(e.w))
(* A crash, a call that does not return and a write outside every object are    *)
(* never allowed.                                                                *)
Sane(e) == e.o # "crash" /\ "oob" \notin DOMAIN e

(* C11 alone: every signed object is canonical, is zero exactly when the exact   *)
(* result is zero; other values are the business of the other properties.        *)
CanonReg(x) == x.s \in {-1, 0, 1} /\ (x.s = 0 <=> x.m = Zero)
ZeroExact(e) ==
    LET new == After(e)  eff == Sem!Eff(reg, cfg, e)  want == Sem!Apply(reg, eff.w)
    IN /\ \A id \in Ids : CanonReg(new[id])
       /\ \A id \in Ids : Kind(id) = "s" => (want[id].s = 0 <=> new[id].s = 0)
       /\ e.o \in Sem!ValueOps => CanonReg(Obs(e.r)) /\ (Obs(e.r).s = 0 <=> eff.r.s = 0)
       /\ e.o \in {"qry", "out", "cmp"} /\ (\A id \in {e.a} : reg[id].s = 0) => ObsRes(e) = eff.r

Accepts(e) == /\ Sane(e)
              /\ CASE Mode = "full" -> Sem!Allowed(reg, cfg, e, After(e), ObsRes(e))
                   [] Mode = "zero" -> ZeroExact(e)

(* Start again with every register zero but the shared ones. *)
Reset == /\ ~AtEnd
         /\ Log[i].o = "reset"
         /\ reg' = [id \in Ids |-> IF id >= 12 THEN reg[id] ELSE Sem!ZZero]
         /\ i' = i + 1
         /\ UNCHANGED cfg

(* Values that C11 does not look at may have taken a call out of the domain.    *)
InDomain(e) == Mode = "full" \/ e.o = "crash" \/ Sem!Pre(reg, cfg, e)

Consume == /\ ~AtEnd
           /\ LET e == Log[i]
              IN /\ e.o # "reset"
                 /\ InDomain(e) = TRUE
                 /\ (IF Mode = "full" /\ e.o # "crash" THEN Assert(Sem!Pre(reg, cfg, e), <<"PRECONDITION", i>>) ELSE TRUE) = TRUE
                 /\ Accepts(e) = TRUE
                 /\ reg' = After(e)
           /\ i' = i + 1
           /\ UNCHANGED cfg

(* An event the specification does not allow ends its chunk.  (A deadlock would *)
(* say the same; this way one run reports every chunk.)                         *)
Reject == /\ ~AtEnd
          /\ Log[i].o # "reset"
          /\ InDomain(Log[i]) = TRUE
          /\ Accepts(Log[i]) = FALSE
          /\ PrintT(<<"REJECT", i>>)
          /\ i' = LogLen + 1 + i
          /\ UNCHANGED <<cfg, reg>>

Skip == /\ ~AtEnd
        /\ Log[i].o # "reset"
        /\ InDomain(Log[i]) = FALSE
        /\ PrintT(<<"SKIP", i>>)
        /\ i' = LogLen + 1 + i
        /\ UNCHANGED <<cfg, reg>>

Next == Reset \/ Skip \/ Consume \/ Reject \/ (AtEnd /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

(* Every object always holds a canonical number that fits its width. *)
Canonical == \A id \in Ids : /\ reg[id].s \in {-1, 0, 1}
                             /\ (reg[id].s = 0) = (reg[id].m = Zero)
                             /\ Kind(id) = "u" => reg[id].s >= 0
                             /\ Len(reg[id].m) * 8 <= Width(cfg, id)

Position == [position |-> i]
=============================================================================
