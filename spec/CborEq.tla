------------------------------- MODULE CborEq -------------------------------
(***************************************************************************)
(* Equality of values read from two inputs, per kind of value compared:    *)
(* equal exactly when the bytes they were read from are the same.          *)
(***************************************************************************)
EXTENDS CborReader

ReadOf(how) ==
  CASE how = "arrayowned" -> "array" [] how = "mapowned" -> "map" [] how = "tagowned" -> "tag"
    [] how = "bytesowned" -> "bytes" [] how = "textowned" -> "text" [] OTHER -> how
AnyHows == {"data", "owned", "clone", "borrowed", "ownedclone"}
ItemHows == {"raw", "rawclone", "untyped", "slice", "sliceowned"}

\* the bytes of the value compared, when there is one
Taken(how, x) ==
  LET r == IF how \in AnyHows \cup ItemHows \cup {"decoded"} THEN ReadAny(x, 0) ELSE Read(ReadOf(how), x, 0) IN
  IF r.st # "ok" \/ (how = "decoded" /\ r.p # Len(x)) THEN [st |-> "no"]
  ELSE [st |-> "ok", b |-> SubSeq(x, 1, r.p)]
=============================================================================
