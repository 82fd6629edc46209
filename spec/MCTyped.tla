------------------------------ MODULE MCTyped ------------------------------
(***************************************************************************)
(* Typed values: for every type of the mode and every value of a small set *)
(* of boundary values, the properties of encoding and decoding as          *)
(* invariants, and sessions for the real crate: the value written every    *)
(* way, and every other spelling and near miss of it read.                 *)
(***************************************************************************)
EXTENDS CborTypes, Mutate, Emit
Mode == IOEnv.MODE
K == atoi(IOEnv.K)   \* how many values of a field or element are used

Nums == <<N64(0), N64(24), N64(1), N64(23), N64(255), N64(256), N64(65535), N64(65536),
          Ones(4), <<0, 0, 0, 1, 0, 0, 0, 0>>, <<127, 255, 255, 255, 255, 255, 255, 255>>,
          <<128, 0, 0, 0, 0, 0, 0, 0>>, Ones(8)>>
SeqIf(s, P(_)) == SelectSeq(s, P)
Map1(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
Lets(n) == [i \in 1..n |-> 97 + (i % 26)]
Blob(n) == [i \in 1..n |-> (i * 37) % 256]
TextVals == <<Lets(2), <<>>, <<195, 169, 226, 130, 172, 240, 159, 146, 150>>, <<0>>, Lets(23), Lets(24), Lets(255), Lets(256)>>
BytesVals == <<<<7, 255>>, <<>>, <<128>>, Blob(23), Blob(24), Blob(255), Blob(256)>>

\* items a value that is data can hold: any spelling
DataVals == <<<<0>>, <<24, 5>>, <<57, 0, 1>>, <<95, 65, 7, 64, 255>>, <<120, 1, 97>>, <<159, 246, 255>>, <<161, 24, 1, 128>>, <<191, 255>>,
              <<216, 24, 65, 0>>, <<248, 20>>, <<249, 126, 1>>, <<247>>, <<130, 217, 0, 1, 244, 152, 1, 99, 97, 98, 99>>>>
TaggedSeeds(t) ==
  CASE t = "datetime" -> <<<<192, 97, 49>>, <<216, 0, 120, 1, 49>>, <<192, 127, 97, 49, 96, 97, 50, 255>>, <<192, 96>>>>
    [] t = "posbig" -> <<<<194, 65, 9>>, <<194, 64>>, <<217, 0, 2, 66, 0, 1>>, <<194, 95, 65, 1, 64, 65, 2, 255>>, <<194, 88, 9, 1, 0, 0, 0, 0, 0, 0, 0, 0>>>>
    [] t = "negbig" -> <<<<195, 65, 9>>, <<195, 64>>, <<218, 0, 0, 0, 3, 66, 0, 1>>, <<195, 95, 65, 1, 64, 65, 2, 255>>>>
    [] t = "rational" -> <<<<216, 30, 130, 1, 2>>, <<216, 30, 130, 32, 24, 2>>, <<217, 0, 30, 159, 194, 65, 1, 25, 1, 0, 255>>,
                           <<216, 30, 130, 195, 65, 3, 194, 65, 4>>, <<216, 30, 152, 2, 59, 255, 255, 255, 255, 255, 255, 255, 255, 0>>>>

First(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
RECURSIVE Vals(_), FieldVals(_, _), Star(_, _, _)
\* lists of elements: none, one, two, at the header widths
ListVals(of) == LET e == First(Vals(of), K)  k == Len(e)
                    Cyc(n) == [i \in 1..n |-> e[((i - 1) % k) + 1]] IN
  <<<<e[1]>>, <<>>, Cyc(2), Cyc(3)>> \o [i \in 1..(k - 1) |-> <<e[i + 1]>>] \o (IF K > 2 THEN <<Cyc(23), Cyc(24)>> ELSE <<>>)
ListV(l) == V("list", <<>>, l)

Maybe(s) == <<NoneV>> \o Map1(s, SomeV)
\* is the field at i optional
Opt(T, i) == T.t = "struct" /\ ((T.form = "lastopt" /\ i = Len(T.fields)) \/ (T.form = "mapint" /\ ~T.fields[i].must))
FieldVals(T, i) == LET f == T.fields[i]
                       s == First(IF "vec" \in DOMAIN f /\ f.vec THEN Map1(ListVals(f.of), ListV) ELSE Vals(f.of), K)
                   IN IF Opt(T, i) THEN Maybe(s) ELSE s
\* a base and all that differ from it in one field
Star(base, fvs, i) ==
  IF i > Len(base) THEN <<>>
  ELSE (IF Len(base) > 6 /\ i \notin {1, 2, Len(base)} THEN <<>>
        ELSE [x \in 1..(Len(fvs[i]) - 1) |-> [base EXCEPT ![i] = fvs[i][x + 1]]]) \o Star(base, fvs, i + 1)
\* optional fields there and not: every way, or all but one of them when they are many
TwoTo(x) == CASE x = 0 -> 1 [] x = 1 -> 2 [] x = 2 -> 4 [] x = 3 -> 8 [] x = 4 -> 16
Presence(full, os) ==
  LET k == Len(os) IN
  IF k < 2 THEN <<>>
  ELSE IF k <= 4
  THEN [m \in 1..(TwoTo(k) - 2) |->
          [i \in 1..Len(full) |-> IF \E x \in 1..k : os[x] = i /\ (m \div TwoTo(x - 1)) % 2 = 0 THEN NoneV ELSE full[i]]]
  ELSE [x \in 1..3 |-> [full EXCEPT ![os[CASE x = 1 -> 1 [] x = 2 -> k \div 2 [] x = 3 -> k]] = NoneV]]
Combos(T) ==
  LET n == Len(T.fields)
      fvs == TLCEval([i \in 1..n |-> FieldVals(T, i)])
      base == TLCEval([i \in 1..n |-> fvs[i][1]])
      full == TLCEval([i \in 1..n |-> IF Opt(T, i) THEN fvs[i][2] ELSE fvs[i][1]])
      opts == {i \in 1..n : Opt(T, i)}
  IN IF n = 0 THEN <<<<>>>>
     ELSE <<base>> \o Star(base, fvs, 1) \o (IF opts = {} THEN <<>> ELSE <<full>> \o
          Presence(full, SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in opts)))

\* an enum by type can only hold what is written as the kind it says
KindFits(v, of, x) == v.kind = LeadKind(Enc(of, x)[1])
VarVals(T, j) == LET c == Combos([t |-> "var", fields |-> T.vars[j].fields, form |-> ""]) IN
  IF T.form = "enumtype" /\ T.vars[j].fields # <<>>
  THEN SelectSeq(c, LAMBDA l : KindFits(T.vars[j], T.vars[j].fields[1].of, l[1])) ELSE c
RECURSIVE AllVars(_, _)
AllVars(T, j) == IF j > Len(T.vars) THEN <<>> ELSE Map1(VarVals(T, j), LAMBDA l : EnumV(j, l)) \o AllVars(T, j + 1)

Vals(n) ==
  LET T == Types[n] IN
  CASE T.t = "bool" -> <<V("True", <<>>, <<>>), V("False", <<>>, <<>>)>>
    [] T.t = "uint" -> Map1(SelectSeq(Nums, LAMBDA v : FitsBytes(v, T.w)), LAMBDA v : V("uint", v, <<>>))
    [] T.t = "text" -> Map1(TextVals, LAMBDA d : V("text", d, <<>>))
    [] T.t = "bytes" -> Map1(BytesVals, LAMBDA d : V("bytes", d, <<>>))
    [] T.t = "fixed" -> IF T.w = 0 THEN <<V("bytes", <<>>, <<>>)>> ELSE <<V("bytes", Blob(T.w), <<>>), V("bytes", Zeros(T.w), <<>>), V("bytes", [i \in 1..T.w |-> 255], <<>>)>>
    [] T.t = "scalar" -> [i \in 1..(2 * Len(Nums)) |-> V(IF i % 2 = 1 THEN "Positive" ELSE "Negative", Nums[(i + 1) \div 2], <<>>)]
    [] T.t = "simple" -> Map1(<<0, 255, 1, 19, 20, 23, 24, 31, 32, 128>>, LAMBDA x : V("byte", <<x>>, <<>>))
    [] T.t = "data" -> Map1(DataVals, LAMBDA d : V("data", d, <<>>))
    [] T.t = "raw" -> LET s == First(Vals(T.of), 3)
                          e == Map1(s, LAMBDA v : V("raw", Enc(T.of, v), <<>>))
                          ind == Indefinite(e[1].b)  wid == WiderHead(e[1].b)
                      IN e \o (IF ind = {} THEN <<>> ELSE <<V("raw", CHOOSE y \in ind : TRUE, <<>>)>>)
                           \o (IF wid = {} THEN <<>> ELSE <<V("raw", CHOOSE y \in wid : TRUE, <<>>)>>)
    [] T.t = "list" -> Map1(ListVals(T.of), ListV)
    [] T.t \in {"datetime", "posbig", "negbig", "rational"} -> Map1(TaggedSeeds(T.t), LAMBDA x : Dec(n, x, 0).v)
    [] T.t = "encoded" -> Map1(<<<<24, 5>>, <<>>, <<130, 1>>, Blob(24)>>, LAMBDA d : V("encoded", d, <<V("enc", EncHeadCanon(6, N64(24)) \o CanonStr("Bytes", d), <<>>)>>))
    [] T.t = "nothing" -> <<V("nothing", <<>>, <<>>)>>
    [] T.t = "two" -> <<V("two", <<>>, <<Vals("u64")[1], Vals("u64")[2]>>)>>
    [] T.t = "struct" -> Map1(Combos(T), StructV)
    [] T.t = "enum" -> AllVars(T, 1)

-----------------------------------------------------------------------------
(* the types of a mode *)
Plain == {"bool", "u8", "u16", "u32", "u64", "text", "bytes", "b0", "b1", "b4", "b16", "b24", "b32", "b64", "b256", "b300", "scalar", "simple", "list_u8", "list_u16",
          "list_u64", "list_text", "list_bytes", "list_bool", "list_scalar", "list_list_u16", "list_b4"}
TaggedT == {"datetime", "posbig", "negbig", "encoded", "rational"}
RawT == {"raw_u16", "raw_text", "raw_data", "raw_list_u16", "list_raw_u16", "data"}
Names == CASE Mode \in {"native", "encode"} -> Plain
           [] Mode = "tagged" -> TaggedT
           [] Mode = "whole" -> {"u16", "text", "bytes", "b4", "scalar", "simple", "bool", "data", "list_u16", "list_text", "list_list_u16", "raw_u16",
                                 "raw_data", "raw_list_u16", "nothing", "two"} \cup TaggedT
           [] Mode = "narrow" -> {"u8", "u16", "u32", "u64", "b0", "b1", "b4", "b16", "b24", "b32", "b64", "b256", "b300", "list_u8", "list_u16", "list_u64", "list_b4", "raw_u16"}
           [] Mode = "raw" -> Plain \cup TaggedT \cup RawT
           [] Mode = "derived" -> DOMAIN Derived

\* a type, one of its values, and what it is written as
VARIABLES n, i, v, x
vars == <<n, i, v, x>>
Init == n \in Names /\ i = 0 /\ v = NoneV /\ x = <<>>
Next == /\ i = 0
        /\ n' = n
        /\ LET l == TLCEval(Vals(n)) IN \E j \in 1..Len(l) : i' = j /\ v' = l[j] /\ x' = TLCEval(Enc(n, l[j]))
Spec == Init /\ [][Next]_vars

T0 == Types[n]

-----------------------------------------------------------------------------
(* what the values of the type are written as does not depend on how a part *)
(* was spelled                                                              *)
RECURSIVE Pure(_)
Pure(t) == LET T == Types[t] IN
  CASE T.t \in {"data", "raw", "datetime", "posbig", "negbig", "rational", "encoded"} -> FALSE
    [] T.t = "list" -> Pure(T.of)
    [] T.t = "struct" -> \A f \in 1..Len(T.fields) : Pure(T.fields[f].of)
    [] T.t = "enum" -> \A j \in 1..Len(T.vars) : \A f \in 1..Len(T.vars[j].fields) : Pure(T.vars[j].fields[f].of)
    [] OTHER -> TRUE
\* one item, always
OneItem == T0.t \notin {"nothing", "two"} /\ ~(T0.t = "struct" /\ T0.form = "flat" /\ T0.tag = <<>> /\ Len(T0.fields) # 1)
At1 == i > 0
\* values whose other spellings and near misses are tried
Few == i <= (IF Mode = "derived" THEN K ELSE 4 * K)

RECURSIVE Shortest(_)
Shortest(y) == LET h == Hdr(y, 0) IN
  /\ ~h.ind
  /\ h.k \notin {"Byte", "Float"} => h.w = CanonW(h.v)
  /\ LET ps == Kids(y) IN \A a \in 1..Len(ps) : Shortest(ps[a])

RoundTrip == At1 => LET r == Whole(n, x) IN r.st = "ok" /\ r.v = v
\* and the reader stands behind the value
Stands == At1 => \A y \in {<<0>>, <<255>>, <<28>>} : LET r == Dec(n, x \o y, 0) IN r.st = "ok" /\ r.v = v /\ r.p = Len(x)
IsItem == (At1 /\ OneItem) => LET a == Scan(x, 0) IN a.st = "ok" /\ a.p = Len(x)
ShortestForm == (At1 /\ OneItem /\ Pure(n)) => Shortest(x)
SameMeaning == (At1 /\ OneItem /\ Few) => \A y \in Spellings(x) : LET r == Whole(n, y) IN r.st = "ok" /\ (Pure(n) => r.v = v)
\* whatever else is accepted is a value that is written and read back as itself
Near == IF OneItem /\ Len(x) < 100 THEN Misses(x) ELSE {}
Stable == (At1 /\ Few) => \A y \in Near : LET r == Whole(n, y) IN r.st = "ok" => LET r2 == Whole(n, Enc(n, r.v)) IN r2.st = "ok" /\ r2.v = r.v
\* different values are written differently
Different == i = 0 => LET l == TLCEval(Vals(n)) IN Cardinality({l[j] : j \in 1..Len(l)}) = Cardinality({Enc(n, l[j]) : j \in 1..Len(l)})
\* nothing shorter or longer is accepted
NoTrailing == At1 => \A y \in After(x) : n \in {"nothing", "two"} \/ Whole(n, y).st = "err"
OneByOne == LET ns == Numbers(T0) IN
  (i = 0 /\ Mode = "derived") => \A a, c \in 1..Len(ns) : ~InSeq(ns[a], T0.skips) /\ (a < c => (ns[a] # ns[c] /\ LE8(ns[a], ns[c])))

-----------------------------------------------------------------------------
(* sessions *)
\* numbers and lengths around every limit, in every head
Around == {Nums[a] : a \in 1..Len(Nums)} \cup {Ones(1), Ones(2), <<0, 0, 0, 0, 0, 255, 255, 255>>, <<0, 0, 0, 0, 1, 0, 0, 1>>, <<0, 0, 0, 1, 0, 0, 0, 255>>,
           <<1, 0, 0, 0, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 7>>, <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1, 0, 44>>, <<0, 0, 0, 0, 0, 0, 1, 44>>}
Heads(maj) == UNION {{EncHead(maj, w, ToWidth(u, w)) : w \in {y \in {0, 1, 2, 4, 8} : y >= CanonW(u)}} : u \in Around}
Strings(m) == UNION {LET d == Blob(l) IN
                     {Str1(m, d), LongStr(m, d), Ind(m, Str1(m, d)), Ind(m, Str1(m, <<>>) \o Str1(m, d)),
                      Ind(m, Str1(m, SubSeq(d, 1, l \div 2)) \o Str1(m, SubSeq(d, l \div 2 + 1, l)))} :
                     l \in {0, 1, 2, 3, 4, 5, 8, 22, 23, 24, 25, 31, 32, 33, 64, 255, 256, 257, 260, 280, 288}}
NarrowIn1(t) == IF Types[t].t = "uint" THEN Heads(0) ELSE Strings(2)
NarrowIn(t) == LET T == Types[t] IN
  CASE T.t = "uint" -> Heads(0) \cup {y \in Heads(1) : y[1] % 32 \in {0, 23, 24, 27}} \cup UNION {Miss1(EncHeadCanon(0, u)) : u \in Around}
    [] T.t = "fixed" -> Strings(2) \cup Misses(Str1(2, Blob(T.w)))
    [] T.t = "list" -> LET e == NarrowIn1(T.of) IN {<<129>> \o y : y \in e} \cup Miss1(<<129, 24, 24>>) \cup {<<159, 0>> \o y \o <<255>> : y \in e} \cup {<<130>> \o y \o y : y \in e}
    [] T.t = "raw" -> Heads(0)
\* nothing is cut off to make it fit
NarrowRight == (Mode = "narrow" /\ i = 0) =>
  \A y \in NarrowIn(n) : LET r == Whole(n, y)  h == Hdr(y, 0) IN
    CASE T0.t = "uint" -> (r.st = "ok") = (h.k = "Positive" /\ Sig(h.v) <= T0.w) /\ (r.st = "ok" => r.v.b = Pad8(h.v))
      [] T0.t = "fixed" -> r.st = "ok" => h.k = "Bytes" /\ Len(r.v.b) = T0.w /\ r.v.b = Payload(ReadStr(y, 0, "Bytes", FALSE))
      [] OTHER -> TRUE
EmitNarrow == (Mode = "narrow" /\ i = 0) => \A y \in NarrowIn(n) : Emit("typed", y, <<Op("d", n, "dec"), Op("d", n, "one"), Op("w", n, "exslice")>>)

RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o ListOf(S \ {e})
D(how) == Op("d", n, how)
Ws(S) == LET s == ListOf(S) IN [a \in 1..Len(s) |-> Op("w", n, s[a])]
Ds(S) == LET s == ListOf(S) IN [a \in 1..Len(s) |-> D(s[a])]
NSeq == <<"fn", "writer", "raw", "builder", "vec">>
Encodes == Emit("typed", <<>>, [a \in 1..Len(NSeq) |-> OpV("n", n, NSeq[a], v)])
\* exactly so much is left
Rest(m) == TLCEval([k \in 1..m |-> 0])
Read1(y) == Emit("typed", y, <<D("dec"), D("bytes")>>)
Sessions == At1 =>
  CASE Mode = "narrow" -> TRUE
    [] Mode \in {"native", "tagged", "derived"} ->
         /\ Encodes
         /\ Read1(x)
         /\ Few => \A y \in Spellings(x) \cup Near \cup Cut(x) \cup After(x) : Read1(y)
    [] Mode = "encode" -> Encodes
    [] Mode = "whole" ->
         /\ i = 1 => \A m \in {255, 256, 257, 512} \cup (IF n \in {"nothing", "u16", "data"} THEN {65536} ELSE {}) :
              LET y == x \o Rest(m) IN Emit("typed", y, Ds(DPaths)) /\ Emit("typed", y, Ws(WPaths))
         /\ i <= 2 * K => \A y \in {x} \cup After(x) \cup Cut(x) \cup (IF i = 1 THEN OtherItems ELSE {}) \cup (IF i = 1 /\ OneItem THEN Top1(x) ELSE {}) :
              Emit("typed", y, Ds(DPaths)) /\ Emit("typed", y, Ws(WPaths))
    [] Mode = "raw" ->
         i <= 2 * K => \A y \in Spellings(x) \cup After(x) \cup Cut(x) \cup (IF i <= K THEN Near ELSE {x}) : Emit("typed", y, Ws(WPaths))
=============================================================================
