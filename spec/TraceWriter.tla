---------------------------- MODULE TraceWriter ----------------------------
(* Sessions of calls on one writer, from new to finalize. *)
EXTENDS CborWriter, TraceBase
VARIABLES i, j, w
vars == <<i, j, w>>
Init == i \in 1..N /\ j = 1 /\ w = W0(<<>>)

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j] IN
           IF e.c = "ok" /\ (e.op = "finalize" => e.b = <<w.out>>)
           THEN /\ j' = j + 1
                /\ w' = CASE e.op = "new" -> W0(IF e.how = "vec" THEN e.a[1] ELSE <<>>)
                          [] e.op = "finalize" -> w
                          [] OTHER -> Write(w, e)
           ELSE Report(i, j, w) /\ j' = STOP + j /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
=============================================================================
