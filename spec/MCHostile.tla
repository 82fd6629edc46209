----------------------------- MODULE MCHostile -----------------------------
(***************************************************************************)
(* Inputs of any size that repeat a piece: deep nesting, long flat         *)
(* containers, strings of many chunks, claims of huge lengths.  A family   *)
(* is a list of runs; the outcome of each call on it is worked out for     *)
(* few repetitions, is uniform in their number from then on (the           *)
(* invariant), and is expected of the real crate for very many (K).        *)
(***************************************************************************)
EXTENDS CborReader, Emit, FiniteSets
Mode == IOEnv.MODE
K == atoi(IOEnv.K)
V == INSTANCE CborValidator

\* a run: piece b, a * n + c times; a head whose argument is n + c on 4 bytes
Run(b, a, c) == [b |-> b, a |-> a, c |-> c, major |-> -1]
Hd(m, c) == [b |-> <<>>, a |-> 0, c |-> c, major |-> m]
R1(b) == Run(b, 0, 1)
Times(r, n) == LET t == r.a * n + r.c IN IF t < 0 THEN 0 ELSE t
HeadB(r, n) == <<32 * r.major + 26>> \o BE(n + r.c, 4)
RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN <<>> ELSE b \o Rep(b, n - 1)
RECURSIVE Bytes(_, _)
Bytes(f, n) == IF f = <<>> THEN <<>>
               ELSE (IF Head(f).major >= 0 THEN HeadB(Head(f), n) ELSE Rep(Head(f).b, Times(Head(f), n))) \o Bytes(Tail(f), n)

BigW == <<255, 255, 255, 255, 255, 255, 255, 255>>
Bigs == {BigW, <<127, 255, 255, 255, 255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 246>>, <<0, 0, 1, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 255, 255, 255, 255>>}
\* opened n times, one item inside, closed n times or one more or less
Nest == {<<Run(x[1], 1, 0), R1(m), Run(x[2], 1, d)>> :
           x \in {<<<<129>>, <<>>>>, <<<<159>>, <<255>>>>, <<<<161, 0>>, <<>>>>, <<<<161>>, <<0>>>>, <<<<191, 0>>, <<255>>>>, <<<<191>>, <<0, 255>>>>, <<<<193>>, <<>>>>,
                  <<<<216, 99>>, <<>>>>, <<<<130, 0>>, <<>>>>, <<<<130>>, <<0>>>>, <<<<159, 193>>, <<255>>>>, <<<<161, 193, 129>>, <<159, 255>>>>, <<<<154, 0, 0, 0, 1>>, <<>>>>,
                  <<<<162, 0, 0, 0>>, <<>>>>},
           m \in {<<0>>, <<95, 255>>, <<28>>}, d \in {-1, 0, 1}}
        \cup {<<Run(<<x>>, 1, 0)>> : x \in {129, 159, 161, 191, 193, 130}}
\* long flat containers, announced or not
Flat == {<<R1(<<x[1]>>), Run(x[2], 1, 0), R1(<<255>>)>> :
           x \in {<<159, <<0>>>>, <<159, <<97, 97>>>>, <<159, <<159, 255>>>>, <<159, <<193, 128>>>>, <<191, <<0, 0>>>>, <<191, <<97, 97, 160>>>>,
                  <<95, <<65, 7>>>>, <<95, <<64>>>>, <<127, <<97, 97>>>>, <<127, <<98, 195, 169>>>>, <<127, <<96>>>>, <<95, <<97, 97>>>>, <<127, <<97, 255>>>>}}
        \cup {<<R1(<<x[1]>>), Run(x[2], 1, 0)>> : x \in {<<159, <<0>>>>, <<191, <<0, 0>>>>, <<95, <<65, 7>>>>, <<127, <<97, 97>>>>}}
        \cup {<<Hd(x[1], c), Run(x[2], 1, 0)>> :
           x \in {<<4, <<0>>>>, <<4, <<97, 97>>>>, <<4, <<129, 0>>>>, <<4, <<25, 1, 0>>>>, <<5, <<0, 0>>>>, <<5, <<65, 7, 246>>>>, <<2, <<7>>>>, <<3, <<97>>>>}, c \in {-1, 0, 1}}
        \cup {<<Hd(3, 0), Run(<<97>>, 1, -2), R1(x)>> : x \in {<<195, 169>>, <<195, 40>>, <<97, 195>>}}
\* claims nothing can meet, with much or little behind them
Claim == {<<R1(<<32 * m + 27>> \o b), Run(<<0>>, 1, 0)>> : m \in 2..5, b \in Bigs}
         \cup {<<R1(o \o <<32 * m + 27>> \o b), Run(<<0>>, 1, 0)>> : m \in 2..5, b \in {BigW, <<0, 0, 1, 0, 0, 0, 0, 0>>}, o \in {<<129>>, <<159>>, <<161>>, <<191, 0>>, <<193>>}}
         \cup {<<Run(<<155>> \o b, 1, 0)>> : b \in Bigs} \cup {<<Run(<<187>> \o b \o <<0>>, 1, 0)>> : b \in Bigs}
         \cup {<<R1(<<95>>), Run(<<64>>, 1, 0), R1(<<91>> \o b)>> : b \in Bigs} \cup {<<R1(<<127>>), Run(<<97, 97>>, 1, 0), R1(<<123>> \o b)>> : b \in Bigs}
Families == CASE Mode = "nest" -> Nest [] Mode = "flat" -> Flat [] Mode = "claim" -> Claim
\* how often, at most, for the real crate: K thousand, or as many bytes
Many(f) == IF Mode = "claim" THEN 300 * K ELSE 1000 * K

VARIABLES f
Init == f \in Families
Next == FALSE /\ UNCHANGED f
Spec == Init /\ [][Next]_f

-----------------------------------------------------------------------------
\* a call: family of observations, op, how
Calls == {<<"r", o, "">> : o \in {"data", "peek", KindOp(LeadKind(Bytes(f, 2)[1]))}}
         \cup {<<"s", "slice", "">>, <<"val", "next", "">>}
         \cup {<<"e", "", h>> : h \in {"owned", "encowned", "raw", "rawdata", "decode", "rebuild", "typedowned"}}
         \cup {<<"p", "array", h>> : h \in {"oiter", "borrow", "tovec", "look"}} \cup {<<"p", "map", h>> : h \in {"oiter", "borrow", "tovec", "olook", "okeys", "values"}}
         \cup {<<"p", "tag", h>> : h \in {"oiter", "borrow"}}
OfKind(c) == c[1] # "p" \/ LeadKind(Bytes(f, 2)[1]) = (CASE c[2] = "array" -> "Array" [] c[2] = "map" -> "Map" [] c[2] = "tag" -> "Tag")
Outcome(c, B) ==
  IF c[1] = "val" THEN LET r == V!NextItem(B, 0) IN IF r.st = "ok" THEN [c |-> "ok", p |-> r.len, len |-> Len(B)] ELSE [c |-> "err", p |-> 0, len |-> Len(B)]
  ELSE LET x == Exec(c[1], c[2], c[3], B, 0) IN IF x.c = "ok" THEN [c |-> "ok", p |-> x.p, len |-> Len(B)] ELSE [c |-> "err", p |-> 0, len |-> Len(B)]

\* the outcome with 4, 5, 6 and 7 repetitions goes on as with 2 and 3
At(c, n) == Outcome(c, Bytes(f, n))
Uniform == \A c \in Calls : OfKind(c) =>
  LET a == At(c, 2)  b == At(c, 3) IN
  \A n \in 4..7 : LET x == At(c, n) IN x.c = b.c /\ a.c = b.c /\ x.p = b.p + (n - 3) * (b.p - a.p)

Expect(c, n) == LET a == At(c, 2)  b == At(c, 3) IN [c |-> b.c, p |-> b.p + (n - 3) * (b.p - a.p)]
RL(n) == [i \in 1..Len(f) |-> IF f[i].major >= 0 THEN [c |-> 1, b |-> HeadB(f[i], n)] ELSE [c |-> Times(f[i], n), b |-> f[i].b]]
Put(n, ev) == Emitting => PrintT("SESSION " \o ToJson([k |-> "total", in |-> <<>>, rl |-> RL(n), ev |-> ev]))
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ListOf(S \ {x})
\* whatever else comes after: typed decoding, and calls on a reader that has been through an error
Types1 == <<"data", "raw_data", "list_u16", "list_text", "list_list_u16", "bytes", "text", "u64", "rational", "list_raw_u16">>
Rest == [i \in 1..Len(Types1) |-> OpA("d", Types1[i], "dec", 0, <<>>)] \o <<Op("d", "data", "w:exdata"), Op("d", "list_u16", "w:bytes"), Op("d", "raw_data", "w:elem"), Op("d", "data", "slice"), Op("d", "list_u16", "oelem")>>
After == <<Op("r", "data", ""), Op("val", "next", ""), Op("r", "array", ""), Op("r", "finished", ""), Op("val", "next", ""), Op("s", "slice", ""), Op("r", "bytes", ""), Op("val", "next", ""),
           Op("r", "map", ""), Op("r", "tag", ""), Op("r", "peek", ""), Op("r", "data", "")>>
Sessions ==
  LET N == Many(f)  cs == ListOf({c \in Calls : OfKind(c)}) IN
  /\ \A i \in 1..Len(cs) : Put(N, <<OpV(cs[i][1], cs[i][2], cs[i][3], Expect(cs[i], N))>>)
  /\ Put(N, Rest)
  /\ Put(N \div 10, After)
=============================================================================
