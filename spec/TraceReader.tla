---------------------------- MODULE TraceReader ----------------------------
(* Sessions of calls on one Reader. *)
EXTENDS CborReader, TraceBase
VARIABLES i, j, p
vars == <<i, j, p>>

Init == i \in 1..N /\ j = 1 /\ p = 0

Call(e, B) == Exec(e.f, e.op, e.how, B, p)

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j]
               B == Log[i].in
               o == Call(e, B)
           IN IF Fits(e, o, p, Len(B))
              THEN j' = j + 1 /\ p' = e.p
              ELSE Report(i, j, o) /\ j' = STOP + j /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
=============================================================================
