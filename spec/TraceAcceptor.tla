--------------------------- MODULE TraceAcceptor ---------------------------
(* Sessions of events fed to one acceptor; a second argument is how many   *)
(* times, up to the first refusal.                                         *)
EXTENDS CborAcceptor, TraceBase
VARIABLES i, j, stack
vars == <<i, j, stack>>
Init == i \in 1..N /\ j = 1 /\ stack = <<>>

KindOf(op) == CASE op = "simple" -> "Positive" [] op = "text" -> "Text" [] op = "bytes" -> "Bytes"
                [] op = "array" -> "Array" [] op = "map" -> "Map" [] op = "tag" -> "Tag" [] op = "brk" -> "Break"
Step(e) == IF e.op = "new" THEN Yes(<<>>)
           ELSE LET n == IF e.a = <<>> THEN 0 ELSE ToNat(e.a[1])  k == KindOf(e.op)  ind == e.how = "indef" IN
                IF Len(e.a) < 2 THEN Feed(stack, k, ind, n) ELSE FeedRep(stack, k, ind, n, ToNat(e.a[2]))

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j]  f == Step(e) IN
           IF e.c = (IF f.ok THEN "ok" ELSE "err") /\ e.s = <<Bool(f.s = <<>>)>>
           THEN j' = j + 1 /\ stack' = f.s
           ELSE Report(i, j, f) /\ j' = STOP + j /\ UNCHANGED stack
Spec == Init /\ [][Next]_vars
=============================================================================
