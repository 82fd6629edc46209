----------------------------- MODULE CborReader -----------------------------
(***************************************************************************)
(* The reader: a buffer, a position, and one outcome per call.  Exec gives *)
(* the outcome of a call at a position; the actions below it are the state *)
(* machine.  An outcome is                                                 *)
(*   c     "ok" or "err"                                                   *)
(*   s, b  what the caller sees: words and byte strings                    *)
(*   p     position afterwards                                             *)
(*   free  (errors) the position may be anywhere from where it was to the  *)
(*         end; otherwise the call consumed nothing                        *)
(*   alt   (errors) another error report would be just as true             *)
(* Families of observations of the same reads:                             *)
(*   r  which item was taken          v  the value handed out              *)
(*   p  the parts handed out          e  the value written back            *)
(***************************************************************************)
EXTENDS CborItems, CborFloat

ROk(s, b, p) == [c |-> "ok", s |-> s, b |-> b, p |-> p, free |-> FALSE, alt |-> FALSE]
RErr(r, p) == [c |-> "err", s |-> r.e.s, b |-> r.e.b, p |-> p, free |-> r.free, alt |-> r.e.alt]

ScalarWords == <<"Negative", "Positive">>
BoolWords == <<"False", "True">>
ConstWords == <<"False", "Null", "True", "Undefined">>

\* kinds a single-head read takes, and how the error names them
Wants(op) == CASE op = "positive" -> {"Positive"} [] op = "negative" -> {"Negative"}
               [] op = "scalar" -> IntKinds [] op = "byte" -> {"Byte"} [] op = "float" -> {"Float"}
               [] op = "constant" -> ConstKinds [] op = "null" -> {"Null"}
               [] op = "undefined" -> {"Undefined"} [] op = "bool" -> {"True", "False"}
WantWords(op) == CASE op = "positive" -> <<"Positive">> [] op = "negative" -> <<"Negative">>
               [] op = "scalar" -> ScalarWords [] op = "byte" -> <<"Byte">> [] op = "float" -> <<"Float">>
               [] op = "constant" -> ConstWords [] op = "null" -> <<"Null">>
               [] op = "undefined" -> <<"Undefined">> [] op = "bool" -> BoolWords
HeadOps == {"positive", "negative", "scalar", "byte", "float", "constant", "null", "undefined", "bool"}
StrOps == {"bytes", "text"}
PartOps == {"array", "map", "tag"}
TypedOps == HeadOps \cup StrOps \cup PartOps
StrKind(op) == IF op = "bytes" THEN "Bytes" ELSE "Text"
KindOp(k) == CASE k = "Positive" -> "positive" [] k = "Negative" -> "negative" [] k = "Bytes" -> "bytes"
               [] k = "Text" -> "text" [] k = "Array" -> "array" [] k = "Map" -> "map" [] k = "Tag" -> "tag"
               [] k = "Byte" -> "byte" [] k = "Float" -> "float" [] OTHER -> "constant"

\* any typed read, as a record with st, p and its own fields
Read(op, B, p) ==
  CASE op \in HeadOps -> LET h == HeadAs(B, p, Wants(op), WantWords(op)) IN
                         IF h.st = "ok" THEN [st |-> "ok", k |-> h.k, w |-> h.w, v |-> h.v, p |-> p + h.adv] ELSE h
    [] op = "bytes" -> ReadStr(B, p, "Bytes", FALSE)
    [] op = "text" -> ReadStr(B, p, "Text", TRUE)
    [] op = "array" -> ReadArr(B, p)
    [] op = "map" -> ReadMap(B, p)
    [] op = "tag" -> ReadTag(B, p)

\* lead byte only: a peek
PeekKind(B, p) ==
  IF p >= Len(B) THEN Fail(E(<<"missing", "Header">>, <<N8(1), N8(0)>>), FALSE)
  ELSE LET k == LeadKind(B[p + 1]) IN
       IF k \in BadLead THEN Fail(E(<<"lead", k>>, <<<<B[p + 1]>>>>), FALSE)
       ELSE [st |-> "ok", k |-> k, p |-> p]

\* whatever comes next, read as its own kind
ReadAny(B, p) ==
  LET k == PeekKind(B, p) IN
  IF k.st # "ok" THEN k
  ELSE IF k.k = "Break" THEN Fail(E(<<"break">>, <<>>), FALSE)
  ELSE Read(KindOp(k.k), B, p)

-----------------------------------------------------------------------------
(* family r: which item was taken *)
ExecR(op, B, p) ==
  CASE op = "peek" -> LET r == PeekKind(B, p) IN
         IF r.st = "ok" THEN ROk(<<r.k>>, <<>>, p) ELSE RErr(r, p)
    [] op = "data" -> LET r == ReadAny(B, p) IN
         IF r.st = "ok" THEN ROk(<<LeadKind(B[p + 1])>>, <<>>, r.p) ELSE RErr(r, p)
    [] op = "finished" ->
         \* is_finished, remaining_bytes, expect_finished
         ROk(<<Bool(p = Len(B))>> \o (IF p = Len(B) THEN <<"ok">> ELSE <<"trailing">>),
             <<N8(Len(B) - p)>> \o (IF p = Len(B) THEN <<>> ELSE <<N8(p), N8(Len(B) - p), <<B[p + 1]>>>>), p)
    [] op \in TypedOps -> LET r == Read(op, B, p) IN
         IF r.st = "ok" THEN ROk(IF op \in {"constant", "bool"} THEN <<r.k>> ELSE <<>>, <<>>, r.p)
         ELSE RErr(r, p)
ReaderOps == TypedOps \cup {"peek", "data", "finished"}

-----------------------------------------------------------------------------
(* family v: the value handed out *)
WStrs(ch) == [i \in 1..Len(ch) |-> Str(ch[i].w)]
DSeqs(ch) == [i \in 1..Len(ch) |-> ch[i].d]

\* two's complement of the number, when 64 bits signed can hold it
I64(k, v) == LET x == Pad8(v) IN
  IF x[1] >= 128 THEN <<>> ELSE IF k = "Positive" THEN x ELSE Not8(v)
I64Word(k, v) == IF I64(k, v) = <<>> THEN "none" ELSE "some"
ByteCanon(w, v) == w = 0 \/ v[1] >= 20

Form(r) == IF r.ind THEN "indefinite" ELSE "definite"

ExecV(op, B, p) ==
  LET r == Read(op, B, p) IN
  IF r.st # "ok" THEN RErr(r, p)
  ELSE CASE op = "positive" -> ROk(<<Bool(IsCanon(r.w, r.v)), Str(r.w)>>, <<Pad8(r.v)>>, r.p)
         [] op = "negative" -> ROk(<<Bool(IsCanon(r.w, r.v)), Str(r.w), I64Word(r.k, r.v)>>,
                                   <<Pad8(r.v), I64(r.k, r.v)>>, r.p)
         [] op = "scalar" -> ROk(<<r.k, Bool(IsCanon(r.w, r.v)), Str(r.w), I64Word(r.k, r.v)>>,
                                 <<Pad8(r.v), I64(r.k, r.v)>>, r.p)
         [] op = "byte" -> ROk(<<Bool(ByteCanon(r.w, r.v))>>, <<r.v>>, r.p)
         [] op = "float" -> ROk(<<Str(r.w)>>, <<r.v>>, r.p)
         [] op \in {"constant", "bool"} -> ROk(<<r.k>>, <<>>, r.p)
         [] op \in {"null", "undefined"} -> ROk(<<>>, <<>>, r.p)
         [] op \in StrOps ->
              \* form, length, chunk header widths; whole payload, payload of the
              \* owned copy, chunks, chunks of the owned copy
              ROk(<<IF r.ind THEN "chunks" ELSE "imm", Str(Len(Payload(r)))>> \o WStrs(r.ch),
                  <<Payload(r), Payload(r)>> \o DSeqs(r.ch) \o DSeqs(r.ch), r.p)
         [] op \in {"array", "map"} ->
              ROk(<<Form(r), Str(r.w), Str(IF op = "array" THEN Len(r.parts) ELSE Len(r.parts) \div 2)>>,
                  <<Pad8(r.v)>>, r.p)
         [] op = "tag" -> ROk(<<Str(r.w)>>, <<Pad8(r.v)>>, r.p)

-----------------------------------------------------------------------------
(* family p: the parts handed out, through an accessor *)
\* views through a reader decode the part, which a text that is not UTF-8 refuses
Decodable(x) == ReadAny(x, 0).st = "ok"
\* (look: how long it is, and nothing read)
Shown(x, how) == IF how \in {"look", "olook"} THEN <<>> ELSE IF how \in {"index", "oindex", "borrow", "data"} \/ Decodable(x) THEN x ELSE <<>>
ShownAll(xs, how) == [i \in 1..Len(xs) |-> Shown(xs[i], how)]
Lens(xs) == [i \in 1..Len(xs) |-> Str(Len(xs[i]))]

ExecP(op, how, B, p) ==
  LET r == Read(op, B, p) IN
  IF r.st # "ok" THEN RErr(r, p)
  ELSE IF how \in {"tovec", "otovec"} /\ \E i \in 1..Len(r.parts) : ~Decodable(Slice(B, r.parts[i]))
  THEN [ROk(<<"refused">>, <<>>, r.p) EXCEPT !.c = "ok"]
  ELSE LET xs == CASE how \in {"keys", "okeys"} -> KeyBytes(B, r)
                   [] how \in {"values", "ovalues"} -> ValBytes(B, r)
                   [] OTHER -> PartBytes(B, r)
           n == CASE op = "map" -> Len(r.parts) \div 2 [] OTHER -> Len(r.parts)
       IN ROk(<<IF op = "tag" THEN "tag" ELSE Form(r), Str(r.w), Str(n)>> \o Lens(xs),
              <<Pad8(r.v)>> \o ShownAll(xs, how), r.p)
ArrayViews == {"index", "oindex", "iter", "oiter", "borrow", "tovec", "otovec", "look", "olook"}
MapViews == {"index", "iter", "oiter", "borrow", "tovec", "otovec", "look", "olook", "keys", "okeys", "values", "ovalues"}
TagViews == {"data", "oindex", "iter", "oiter", "borrow"}

-----------------------------------------------------------------------------
(* family e: the value written back, through a path *)
DeepPaths == {"deep"}
\* paths that take the item whole before looking at it
WholePaths == {"raw", "rawslice", "rawdata", "rawuntyped", "generic2"}
ExecE(path, B, p) ==
  LET r == ReadAny(B, p) IN
  IF r.st # "ok"
  THEN IF path \in WholePaths THEN [RErr(r, p) EXCEPT !.free = TRUE, !.alt = TRUE] ELSE RErr(r, p)
  ELSE IF path \in {"generic", "generic2"} /\ r.p # Len(B)
  THEN [RErr(Fail(E(<<"trailing">>, <<>>), TRUE), p) EXCEPT !.alt = TRUE]
  ELSE IF path \in DeepPaths /\ ~AllUtf8(B, p)
  THEN [RErr(Fail(E(<<"utf8">>, <<>>), TRUE), p) EXCEPT !.alt = TRUE]
  ELSE ROk(<<>>, <<SubSeq(B, p + 1, r.p)>>, r.p)
ReencPaths == {"data", "owned", "encdata", "encowned", "typed", "typedenc", "typedowned", "scalar",
               "raw", "rawslice", "rawdata", "rawuntyped", "decode", "deep", "rebuild", "generic", "generic2"}

-----------------------------------------------------------------------------
(* whole items: extraction of the next item as raw typed data *)
ExecS(op, B, p) ==
  \* "slice": accepted iff a well-formed item whose top text is UTF-8
  LET a == Scan(B, p) IN
  IF a.st # "ok" THEN RErr(Inside(a), p)
  ELSE LET r == ReadAny(B, p) IN
       IF r.st = "ok" THEN ROk(<<>>, <<SubSeq(B, p + 1, r.p)>>, r.p)
       ELSE [RErr(r, p) EXCEPT !.free = TRUE]

(* family f: float conversions; an empty byte string stands for any NaN *)
ExecF(op, B, p) ==
  LET r == Read("float", B, p) IN
  IF r.st # "ok" THEN RErr(r, p)
  ELSE ROk(<<>>, <<Convert(r.w, r.v, 4), Convert(r.w, r.v, 8), SubSeq(B, p + 1, r.p)>>, r.p)

-----------------------------------------------------------------------------
Exec(f, op, how, B, p) ==
  CASE f = "r" -> ExecR(op, B, p)
    [] f = "v" -> ExecV(op, B, p)
    [] f = "p" -> ExecP(op, how, B, p)
    [] f = "e" -> ExecE(how, B, p)
    [] f = "s" -> ExecS(op, B, p)
    [] f = "f" -> ExecF(op, B, p)
=============================================================================
