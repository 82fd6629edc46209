----------------------------- MODULE CborFeeder -----------------------------
(***************************************************************************)
(* A caller that has the first `have` bytes of an input starting with one  *)
(* whole item of `end` bytes: an attempt to take the item succeeds exactly *)
(* when have >= end; otherwise it reports missing data, at least one byte  *)
(* and no more than the item still needs, and the caller fetches that many.*)
(***************************************************************************)
EXTENDS CborReader

\* the size of the item, when it can be taken at all (text has to be UTF-8)
Whole1(B) == LET r == ReadAny(B, 0) IN IF r.st = "ok" THEN r.p ELSE 0

\* a report of needing exp with got there, both 8 byte numbers
Short(exp, got) == IF Small(exp) /\ Small(got) THEN ToNat(exp) - ToNat(got) ELSE -1
GoodShort(short, have, end) == 1 <= short /\ short <= end - have
=============================================================================
