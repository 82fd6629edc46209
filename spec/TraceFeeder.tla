---------------------------- MODULE TraceFeeder ----------------------------
(* Sessions of attempts and refills. *)
EXTENDS CborFeeder, TraceBase
VARIABLES i, j, have, short
vars == <<i, j, have, short>>
Init == i \in 1..N /\ j = 1 /\ have = 0 /\ short = 0

Try(e, end) ==
  IF have >= end THEN e.c = "ok" /\ e.p = end
  ELSE e.c = "err" /\ e.s[1] = "missing" /\ GoodShort(Short(e.b[1], e.b[2]), have, end)

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j]  B == Log[i].in  end == Whole1(B) IN
           IF CASE end = 0 -> TRUE
                [] e.op = "cut" -> e.c = "ok"
                [] e.op = "try" -> Try(e, end)
                [] e.op = "fetch" -> e.c = "ok" /\ short > 0 /\ e.p = have + short
           THEN /\ j' = j + 1
                /\ have' = IF e.op \in {"cut", "fetch"} THEN e.p ELSE have
                /\ short' = IF e.op = "try" /\ e.c = "err" THEN Short(e.b[1], e.b[2]) ELSE 0
           ELSE Report(i, j, <<have, end>>) /\ j' = STOP + j /\ UNCHANGED <<have, short>>
Spec == Init /\ [][Next]_vars
=============================================================================
