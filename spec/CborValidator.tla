--------------------------- MODULE CborValidator ---------------------------
(***************************************************************************)
(* The validator: a position in the input, and whether a call has failed.  *)
(* Until a call fails, each call hands out the item at the position, or    *)
(* fails; at the end of the input it reports missing data.  After a failed *)
(* call the position may be anywhere further on, and what is handed out    *)
(* from then on still is one whole item of the input.                      *)
(***************************************************************************)
EXTENDS CborItems

\* what the next call shows before any failure
NextItem(B, p) ==
  LET a == Scan(B, p) IN
  IF a.st = "ok" THEN [st |-> "ok", off |-> p, len |-> a.p - p]
  ELSE [st |-> "err", e |-> ScanErr(a), end |-> p = Len(B)]

\* the slice [off, off+len) is one whole item
IsItem(B, off, len) == off <= Len(B) /\ LET a == Scan(B, off) IN a.st = "ok" /\ a.p = off + len
=============================================================================
