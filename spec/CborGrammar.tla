---------------------------- MODULE CborGrammar ----------------------------
(***************************************************************************)
(* Well-formedness after RFC 8949, Appendix C: a recursive descent that    *)
(* shares nothing with the push-down acceptor but the integer helpers.     *)
(* W(B, i, breakable) works on 1-based index i and returns the index after *)
(* the item, or 0 when a break was found and allowed, -1 when malformed,   *)
(* or -2 when the bytes ran out.                                           *)
(* Deviation of cbored, named here: the RFC refuses a two-byte simple      *)
(* value below 32 (LenientSimple = TRUE accepts it).                       *)
(***************************************************************************)
EXTENDS CborNum
LOCAL LenientSimple == TRUE

BRK == 0
BAD == -1
SHORT == -2

LOCAL Arg(B, i, n) == SubSeq(B, i, i + n - 1)

RECURSIVE W(_, _, _), WN(_, _, _), WInd(_, _, _), WIndMap(_, _), WStr(_, _, _)

W(B, i, breakable) ==
  IF i > Len(B) THEN SHORT
  ELSE LET mt == B[i] \div 32
           ai == B[i] % 32
           more == CASE ai = 24 -> 1 [] ai = 25 -> 2 [] ai = 26 -> 4 [] ai = 27 -> 8 [] OTHER -> 0
           j == i + 1 + more
       IN
    IF ai \in {28, 29, 30} THEN BAD
    ELSE IF ai = 31 THEN
      CASE mt \in {2, 3} -> WStr(B, i + 1, mt)
        [] mt = 4 -> WInd(B, i + 1, 0)
        [] mt = 5 -> WInd(B, i + 1, 1)
        [] mt = 7 -> IF breakable THEN BRK ELSE BAD
        [] OTHER -> BAD
    ELSE IF i + more > Len(B) THEN SHORT
    ELSE LET val == IF more = 0 THEN ai ELSE ToNat(Arg(B, i + 1, more)) IN
      CASE mt \in {0, 1} -> j
        [] mt \in {2, 3} -> IF val > Len(B) - j + 1 THEN SHORT ELSE j + val
        [] mt = 4 -> WN(B, j, val)
        [] mt = 5 -> IF val >= 1000000000 THEN WN(B, j, Huge) ELSE WN(B, j, 2 * val)
        [] mt = 6 -> W(B, j, FALSE)
        [] mt = 7 -> IF ai = 24 /\ val < 32 /\ ~LenientSimple THEN BAD ELSE j

\* n items in a row
WN(B, i, n) == IF n = 0 THEN i
               ELSE LET r == W(B, i, FALSE) IN IF r <= 0 THEN r ELSE WN(B, r, n - 1)

\* items up to a break; kv = 1: pairs
WInd(B, i, kv) ==
  LET r == W(B, i, TRUE) IN
  IF r = BRK THEN i + 1
  ELSE IF r < 0 THEN r
  ELSE IF kv = 0 THEN WInd(B, r, kv)
  ELSE LET r2 == W(B, r, FALSE) IN IF r2 <= 0 THEN r2 ELSE WInd(B, r2, kv)

WIndMap(B, i) == WInd(B, i, 1)

\* chunks of an indefinite string: definite strings of the same major type
WStr(B, i, mt) ==
  IF i > Len(B) THEN SHORT
  ELSE IF B[i] = 255 THEN i + 1
  ELSE IF B[i] \div 32 # mt \/ B[i] % 32 = 31 THEN BAD
  ELSE LET r == W(B, i, FALSE) IN IF r <= 0 THEN r ELSE WStr(B, r, mt)

(* offset after the item at offset p, or a non-positive verdict *)
WellFormed(B, p) == LET r == W(B, p + 1, FALSE) IN IF r > 0 THEN r - 1 ELSE r
=============================================================================
