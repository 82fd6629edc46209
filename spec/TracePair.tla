----------------------------- MODULE TracePair -----------------------------
(* Sessions of comparisons with one value. *)
EXTENDS CborEq, TraceBase
VARIABLES i, j
vars == <<i, j>>
Init == i \in 1..N /\ j = 1

Want(how, x, y) ==
  LET a == Taken(how, x)  b == Taken(how, y) IN
  IF a.st # "ok" \/ b.st # "ok" THEN [c |-> "err", s |-> <<>>]
  ELSE [c |-> "ok", s |-> <<Bool(a.b = b.b), Bool(a.b # b.b)>>]

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j]  w == Want(e.how, Log[i].in, e.a[1]) IN
           IF e.c = w.c /\ (w.c = "ok" => e.s = w.s) THEN j' = j + 1
           ELSE Report(i, j, w) /\ j' = STOP + j
Spec == Init /\ [][Next]_vars
=============================================================================
