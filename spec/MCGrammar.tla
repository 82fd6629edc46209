------------------------------ MODULE MCGrammar ------------------------------
(* Exhaustive design check: over every byte string of at most MaxLen bytes  *)
(* from Alphabet, the push-down acceptor and the RFC grammar agree, no      *)
(* well-formed item is a proper prefix of another, and a truncated item     *)
(* always reports a sound shortfall.                                        *)
EXTENDS CborItems, FiniteSets
G == INSTANCE CborGrammar
CONSTANTS MaxLen, Alphabet
VARIABLE b
Init == b = <<>>
\* extend only strings that are proper prefixes of something well-formed
Live(x) == Scan(x, 0).st = "missing"
Next == /\ Len(b) < MaxLen
        /\ Live(b)
        /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b

IsAlt(a) == "alt" \in DOMAIN a /\ a.alt
Agree == LET a == Scan(b, 0)  g == G!WellFormed(b, 0) IN
         CASE a.st = "ok" -> g = a.p
           [] a.st = "missing" -> g = G!SHORT \/ (IsAlt(a) /\ g = G!BAD)
           [] OTHER -> g = G!BAD
\* the shortfall is at least one byte
Shortfall(a) == IF ToNat(a.exp) >= Huge THEN Huge ELSE ToNat(a.exp) - a.got
Positive1 == LET a == Scan(b, 0) IN a.st = "missing" => Shortfall(a) >= 1
\* every well-formed string: each proper prefix asks for no more than what is missing
Refill == LET a == Scan(b, 0) IN
          (a.st = "ok" /\ a.p = Len(b)) =>
            \A c \in 0..(Len(b) - 1) :
               LET x == Scan(SubSeq(b, 1, c), 0) IN
               x.st = "missing" /\ ~IsAlt(x) /\ Shortfall(x) <= Len(b) - c

(* the parts of an item, written one after the other, are the item *)
Item(x) == LET h == Hdr(x, 0) IN
  CASE h.k \in StrKinds -> EncStr(h.k, ReadStr(x, 0, h.k, FALSE))
    [] h.k = "Array" -> LET r == ReadArr(x, 0) IN EncParts(4, r, PartBytes(x, r))
    [] h.k = "Map" -> LET r == ReadMap(x, 0) IN EncParts(5, r, PartBytes(x, r))
    [] h.k = "Tag" -> LET r == ReadTag(x, 0) IN EncParts(6, r, PartBytes(x, r))
    [] OTHER -> EncHead(MajorOf(h.k), h.w, h.v)
Exact == LET a == Scan(b, 0) IN a.st = "ok" => Item(b) = SubSeq(b, 1, a.p)
\* reading the parts of a container succeeds exactly when the item is well-formed
PartsAgree == LET a == Scan(b, 0)  h == Hdr(b, 0) IN
  h.st = "ok" =>
    /\ h.k = "Array" => LET r == ReadArr(b, 0) IN (r.st = "ok") = (a.st = "ok") /\ (r.st = "ok" => r.p = a.p)
    /\ h.k = "Map" => LET r == ReadMap(b, 0) IN (r.st = "ok") = (a.st = "ok") /\ (r.st = "ok" => r.p = a.p)
    /\ h.k = "Tag" => LET r == ReadTag(b, 0) IN (r.st = "ok") = (a.st = "ok") /\ (r.st = "ok" => r.p = a.p)
    /\ h.k \in StrKinds => LET r == ReadStr(b, 0, h.k, FALSE) IN (r.st = "ok") = (a.st = "ok") /\ (r.st = "ok" => r.p = a.p)
=============================================================================
