--------------------------- MODULE TraceValidator ---------------------------
(* Sessions of calls on one validator. *)
EXTENDS CborValidator, TraceBase
VARIABLES i, j, p, failed
vars == <<i, j, p, failed>>
Init == i \in 1..N /\ j = 1 /\ p = 0 /\ failed = FALSE

\* a slice handed out: offset, length and count as reported, and its bytes
Slices(e, B, off) ==
  LET len == Len(e.b[1]) IN
  /\ e.s = <<Str(off), Str(len), Str(len)>>
  /\ IsItem(B, off, len) /\ SubSeq(B, off + 1, off + len) = e.b[1]
Offsets(e, B) == {o \in 0..Len(B) : Str(o) = e.s[1]}

Ok(e, B) ==
  IF ~failed THEN Slices(e, B, p) /\ NextItem(B, p).st = "ok" /\ e.p = p + Len(e.b[1])
  ELSE \E o \in Offsets(e, B) : Slices(e, B, o) /\ o >= p /\ e.p = o + Len(e.b[1])

Err(e, B) ==
  /\ p <= e.p /\ e.p <= Len(B)
  /\ ~failed => LET w == NextItem(B, p) IN
                /\ w.st = "err"
                /\ w.end => e.s[1] = "missing"
                /\ (Strict /\ ~w.e.alt) => (e.s = w.e.s /\ e.b = w.e.b)

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j]  B == Log[i].in IN
           IF (e.c = "ok" /\ Ok(e, B)) \/ (e.c = "err" /\ Err(e, B))
           THEN j' = j + 1 /\ p' = e.p /\ failed' = (failed \/ e.c = "err")
           ELSE Report(i, j, NextItem(B, p)) /\ j' = STOP + j /\ UNCHANGED <<p, failed>>
Spec == Init /\ [][Next]_vars
=============================================================================
