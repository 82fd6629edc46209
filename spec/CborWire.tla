------------------------------ MODULE CborWire ------------------------------
(***************************************************************************)
(* Item heads: the lead byte and its big-endian argument, at an offset of  *)
(* a byte string.  Offsets count consumed bytes: the next byte of B at     *)
(* offset p is B[p+1].                                                     *)
(***************************************************************************)
EXTENDS CborNum

Kinds == {"Positive", "Negative", "Bytes", "Text", "Array", "Map", "Tag",
          "False", "True", "Null", "Undefined", "Byte", "Float", "Break"}
ConstKinds == {"False", "True", "Null", "Undefined"}
StrKinds == {"Bytes", "Text"}
ContKinds == {"Array", "Map"}
IntKinds == {"Positive", "Negative"}

MajorKind == <<"Positive", "Negative", "Bytes", "Text", "Array", "Map", "Tag">>
MajorOf(k) == CASE k = "Positive" -> 0 [] k = "Negative" -> 1 [] k = "Bytes" -> 2
                [] k = "Text" -> 3 [] k = "Array" -> 4 [] k = "Map" -> 5 [] k = "Tag" -> 6
                [] OTHER -> 7

InfoWidth(info) == CASE info = 24 -> 1 [] info = 25 -> 2 [] info = 26 -> 4 [] info = 27 -> 8
                     [] OTHER -> 0
WidthInfo(w) == CASE w = 1 -> 24 [] w = 2 -> 25 [] w = 4 -> 26 [] w = 8 -> 27

(* kind announced by a lead byte: "reserved" and "noindef" are the two     *)
(* malformed classes                                                       *)
LeadKind(b) ==
  LET maj == b \div 32  info == b % 32 IN
  IF info \in 28..30 THEN "reserved"
  ELSE IF maj < 7 THEN
         IF info = 31 /\ maj \in {0, 1, 6} THEN "noindef" ELSE MajorKind[maj + 1]
  ELSE CASE info < 20 -> "Byte"
         [] info = 20 -> "False" [] info = 21 -> "True"
         [] info = 22 -> "Null"  [] info = 23 -> "Undefined"
         [] info = 24 -> "Byte"
         [] info \in 25..27 -> "Float"
         [] OTHER -> "Break"

BadLead == {"reserved", "noindef"}

LeadIndef(b) == b % 32 = 31 /\ (b \div 32) \in 2..5

Missing(ctx, exp, got) == [st |-> "missing", ctx |-> ctx, exp |-> exp, got |-> got]

(* the head at offset p: kind, indefinite flag, width and argument, size   *)
Hdr(B, p) ==
  IF p >= Len(B) THEN Missing("Header", <<1>>, 0)
  ELSE LET b == B[p + 1]  k == LeadKind(b) IN
       IF k \in BadLead THEN [st |-> k, lead |-> b]
       ELSE IF LeadIndef(b) \/ k = "Break"
            THEN [st |-> "ok", k |-> k, ind |-> TRUE, w |-> 0, v |-> <<>>, adv |-> 1]
       ELSE LET info == b % 32  w == InfoWidth(info) IN
            IF w = 0 THEN [st |-> "ok", k |-> k, ind |-> FALSE, w |-> 0, v |-> <<info>>, adv |-> 1]
            ELSE IF Len(B) - p - 1 < w THEN Missing("IndirectLen", <<w>>, Len(B) - p - 1)
            ELSE [st |-> "ok", k |-> k, ind |-> FALSE, w |-> w,
                  v |-> SubSeq(B, p + 2, p + 1 + w), adv |-> 1 + w]

(* the byte-string form of a head *)
EncHead(maj, w, v) == IF w = 0 THEN <<32 * maj + v[1]>> ELSE <<32 * maj + WidthInfo(w)>> \o v
EncIndef(maj) == <<32 * maj + 31>>
EncHeadCanon(maj, v) == EncHead(maj, CanonW(v), Canon(v))
BREAK == 255
=============================================================================
