------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* The reader on every input made of at most K pieces, and its calls on    *)
(* each of them: the design properties as invariants, and sessions for the *)
(* real crate.  An input grows while it is the beginning of an item, and   *)
(* by one more piece after a whole item.                                   *)
(***************************************************************************)
EXTENDS CborReader, Tokens, Emit, FiniteSets
G == INSTANCE CborGrammar
Mode == IOEnv.MODE
K == atoi(IOEnv.K)
VARIABLES b, n, after
vars == <<b, n, after>>

\* first pieces and further pieces
First == CASE Mode = "reads" -> LeadT \cup Byte2T \cup IntT \cup BytesT \cup TextT \cup ByteT \cup FloatT \cup ArrT \cup MapT \cup TagT \cup BrokenT \cup WideT \cup AgainT
           [] Mode = "values" -> AgainT \cup IntT \cup WideT \cup LongT \cup ByteT \cup FloatT \cup BytesT \cup TextT \cup IndT \cup TagT \cup ConstT \cup ArrT \cup MapT
           [] Mode = "parts" -> AgainT \cup WideT \cup IndT \cup ArrT \cup MapT \cup TagT
           [] OTHER -> AgainT \cup WideT \cup IntT \cup ConstT \cup ByteT \cup FloatT \cup BytesT \cup TextT \cup IndT \cup ArrT \cup MapT \cup TagT \cup BreakT \cup BrokenT
More == CASE Mode = "reads" -> Int1 \cup {<<246>>, <<64>>, <<65, 7>>, <<97, 97>>, <<97, 255>>, <<159>>, <<95>>, <<129>>, <<161>>, <<28>>, <<66, 1>>, <<255>>}
          [] Mode = "values" -> {<<0>>, <<64>>, <<65, 7>>, <<88, 2, 8, 9>>, <<96>>, <<97, 97>>, <<120, 2, 195, 169>>, <<98, 195, 40>>, <<97, 195>>, <<99, 239, 187, 191>>, <<105, 97, 97, 97, 97, 97, 97, 97, 97, 255>>, <<255>>}
          [] Mode = "parts" -> {<<0>>, <<24, 1>>, <<245>>, <<65, 7>>, <<97, 97>>, <<97, 255>>, <<127>>, <<159>>, <<191>>, <<129>>, <<161>>, <<193>>, <<255>>}
          [] OTHER -> {<<0>>, <<24, 24>>, <<246>>, <<248, 1>>, <<249, 0, 1>>, <<65, 7>>, <<97, 97>>, <<97, 255>>, <<95>>, <<127>>, <<159>>,
                       <<191>>, <<129>>, <<130>>, <<161>>, <<193>>, <<255>>, <<28>>}

Item0 == Scan(b, 0)
Live == b = <<>> \/ Item0.st = "missing"

Init == b = <<>> /\ n = 0 /\ after = FALSE
Next == /\ n < K /\ ~after
        /\ \/ Live /\ after' = FALSE
           \/ Item0.st = "ok" /\ after' = TRUE
        /\ n' = n + 1
        /\ \E t \in (IF n = 0 THEN First ELSE More) : b' = b \o t
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* design properties *)
ROps == {o \in ReaderOps : TRUE}
AllR == {ExecR(o, b, 0) : o \in ROps}
Kind1 == PeekKind(b, 0)

\* consumed and remaining add up: the position stays inside the input
Inside0 == \A o \in ROps : LET x == ExecR(o, b, 0) IN 0 <= x.p /\ x.p <= Len(b)
\* a typed read takes its own kind only
OwnKind == \A o \in TypedOps : Read(o, b, 0).st = "ok" =>
   CASE o \in HeadOps -> Kind1.k \in Wants(o) [] OTHER -> KindOp(Kind1.k) = o
\* exactly one item is taken, whichever way
Extent == \A o \in TypedOps \cup {"data"} : LET x == ExecR(o, b, 0) IN
   x.c = "ok" => G!WellFormed(b, 0) = x.p
\* a whole well-formed item is taken by the read of its kind, unless its text is not UTF-8
Taken == Item0.st = "ok" => (ReadAny(b, 0).st = "ok" \/ Kind1.k = "Text")
\* the refusals that do not depend on what follows the head consume nothing: what
\* the reader says next is the same
Peeks == Kind1.st = "ok" => ExecR("peek", b, 0).p = 0
\* what is written back is what was read
Back(o) == LET r == Read(o, b, 0) IN
  CASE o \in StrOps -> EncStr(StrKind(o), r)
    [] o = "array" -> EncParts(4, r, PartBytes(b, r))
    [] o = "map" -> EncParts(5, r, PartBytes(b, r))
    [] o = "tag" -> EncParts(6, [r EXCEPT !.ind = FALSE], PartBytes(b, r))
    [] OTHER -> EncHead(MajorOf(r.k), r.w, r.v)
Exact == \A o \in TypedOps : LET r == Read(o, b, 0) IN r.st = "ok" => Back(o) = SubSeq(b, 1, r.p)

-----------------------------------------------------------------------------
(* sessions *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
R(o) == Op("r", o, "")
RSeq(S) == LET s == SeqOf(S) IN [i \in 1..Len(s) |-> R(s[i])]

Stays(p) == {o \in ROps : LET x == ExecR(o, b, p) IN x.p = p /\ ~x.free}
Takes(p) == {o \in ROps : LET x == ExecR(o, b, p) IN x.c = "ok" /\ x.p > p}
Messes(p) == {o \in ROps : LET x == ExecR(o, b, p) IN x.c = "err" /\ x.free}

\* everything that has to leave the position alone, then one that takes the
\* item, then everything that has to leave the next position alone
EmitReads ==
  /\ \A o \in Takes(0) : Emit("reader", b, RSeq(Stays(0)) \o <<R(o)>> \o RSeq(Stays(ExecR(o, b, 0).p)))
  /\ \A o \in Messes(0) : Emit("reader", b, RSeq(Stays(0)) \o <<R(o), R("finished")>>)
  /\ (Takes(0) = {} /\ Messes(0) = {}) => Emit("reader", b, RSeq(Stays(0)))

EmitValues == \A o \in TypedOps : Read(o, b, 0).st = "ok" => Emit("reader", b, <<Op("v", o, ""), R("finished")>>)

Views(o) == CASE o = "array" -> ArrayViews [] o = "map" -> MapViews [] o = "tag" -> TagViews
EmitParts == \A o \in PartOps : Read(o, b, 0).st = "ok" =>
               \A h \in Views(o) : Emit("reader", b, <<Op("p", o, h)>>)

EmitReenc == (Item0.st = "ok" /\ ReadAny(b, 0).st = "ok") =>
               \A h \in ReencPaths : (h # "scalar" \/ Kind1.k \in IntKinds) => Emit("reader", b, <<Op("e", "", h)>>)

Enclosed == { <<129>> \o b, <<159>> \o b \o <<255>>, <<161, 0>> \o b, <<191>> \o b \o <<0, 255>>, <<193>> \o b }
EmitItems ==
  /\ Emit("reader", b, <<Op("s", "slice", "")>>)
  /\ Emit("reader", b, <<Op("s", "sdata", "")>>)
  /\ Emit("reader", b, <<R("data")>>)
  /\ Emit("validator", b, <<Op("", "next", "")>>)
  /\ IOEnv.WRAP = "1" => \A x \in Enclosed : Emit("reader", x, <<R(KindOp(LeadKind(x[1])))>>)

Sessions ==
  n > 0 => CASE Mode = "reads" -> EmitReads
             [] Mode = "values" -> EmitValues
             [] Mode = "parts" -> EmitParts
             [] Mode = "reenc" -> EmitReenc
             [] Mode = "items" -> EmitItems
\* the empty input, too
EmptyOnes == n = 0 => CASE Mode = "reads" -> EmitReads [] Mode = "items" -> EmitItems [] OTHER -> TRUE
=============================================================================
