------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* Programs for one writer of at most K calls: every kind of call (MODE    *)
(* calls), few values in every shape of builders (MODE shapes), or many    *)
(* values in a builder (MODE fills).  The    *)
(* oracle for what comes out is the program read as a tree.                *)
(***************************************************************************)
EXTENDS CborWriter, Emit, FiniteSets
G == INSTANCE CborGrammar
Mode == IOEnv.MODE
K == atoi(IOEnv.K)
VARIABLES prog, w
vars == <<prog, w>>

C(op, how, n, a) == [op |-> op, how |-> how, n |-> n, a |-> a]
U64(n) == Pad8(NatBytes(n))
Max64 == [i \in 1..8 |-> 255]
NumSet == {U64(0), U64(23), U64(24), U64(255), U64(256), U64(65535), U64(65536), <<0, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 0, 0, 0>>, Max64}
Widths(v) == {y \in {0, 1, 2, 4, 8} : y >= CanonW(v)}
Wide(op, v) == {C(op, "width", y, <<ToWidth(v, y)>>) : y \in Widths(v)}
Lets(n) == [i \in 1..n |-> 97 + (i % 26)]
Blob(n) == [i \in 1..n |-> (i * 37) % 256]
Lens == {0, 1, 23, 24, 255, 256}
\* two, three and four byte characters: bytes are counted, not characters
Chars(n) == IF n % 2 = 0 THEN <<195, 169>> ELSE <<226, 130, 172>>
RECURSIVE Multi(_)
Multi(n) == IF n = 0 THEN <<>> ELSE Multi(n - 1) \o Chars(n)
TextSet == {Lets(n) : n \in Lens} \cup {Multi(n) : n \in {1, 7, 8, 9, 10, 11, 12, 23, 24, 60, 102, 110}} \cup {<<240, 159, 146, 150>>}
Floats == {<<0, 0>>, <<124, 1>>, <<60, 0>>, <<63, 128, 0, 0>>, <<127, 192, 0, 1>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<127, 240, 0, 0, 0, 0, 0, 1>>}
Raws == {<<"bytes", <<95, 65, 7, 64, 255>>>>, <<"bytes", <<89, 0, 1, 7>>>>, <<"text", <<127, 97, 97, 120, 0, 255>>>>, <<"text", <<123, 0, 0, 0, 0, 0, 0, 0, 1, 97>>>>,
         <<"array", <<159, 24, 1, 255>>>>, <<"array", <<152, 1, 160>>>>, <<"map", <<191, 0, 24, 1, 255>>>>, <<"map", <<185, 0, 1, 96, 64>>>>,
         <<"tag", <<217, 0, 1, 246>>>>, <<"tag", <<193, 95, 255>>>>}
RawAny == {<<0>>, <<24, 5>>, <<57, 0, 1>>, <<95, 65, 7, 64, 255>>, <<120, 1, 97>>, <<159, 246, 255>>, <<161, 24, 1, 128>>, <<191, 255>>,
           <<216, 24, 65, 0>>, <<248, 20>>, <<248, 3>>, <<249, 126, 1>>, <<247>>, <<130, 217, 0, 1, 244, 152, 1, 99, 97, 98, 99>>}
Hows2 == {"", "owned", "enc"}
Leaves ==
  {C(o, "canonical", 0, <<v>>) : o \in {"positive", "negative", "scalar", "nscalar"}, v \in NumSet}
  \cup UNION {Wide(o, v) : o \in {"positive", "negative"}, v \in NumSet}
  \cup {C("byte", "canonical", 0, <<<<x>>>>) : x \in {0, 19, 20, 23, 24, 31, 32, 255}}
  \cup {C("byte", "imm", 0, <<<<x>>>>) : x \in {0, 19}} \cup {C("byte", "two", 0, <<<<x>>>>) : x \in {0, 19, 20, 24, 255}}
  \cup {C("constant", h, 0, <<>>) : h \in {"False", "True", "Null", "Undefined"}} \cup {C("bool", h, 0, <<>>) : h \in {"False", "True"}}
  \cup {C("float", "", 0, <<f>>) : f \in Floats}
  \cup {C("bytes", h, 0, <<Blob(n)>>) : n \in Lens, h \in Hows2} \cup {C("text", h, 0, <<t>>) : t \in TextSet, h \in Hows2}
  \cup {C("bchunks", h, 0, a) : h \in Hows2, a \in {<<>>, <<<<>>>>, <<<<7>>, <<>>, Blob(24)>>, <<Blob(256)>>}}
  \cup {C("tchunks", h, 0, a) : h \in Hows2, a \in {<<>>, <<<<>>>>, <<<<97>>, <<>>, Multi(12)>>, <<Lets(24), Multi(110)>>}}
  \cup {C("raw", r[1], 0, <<r[2]>>) : r \in Raws} \cup {C("raw", h, 0, <<x>>) : h \in {"data", "encode", "slice"}, x \in RawAny}
  \cup {C("native", "u64", 0, <<v>>) : v \in NumSet} \cup {C("native", "string", 0, <<t>>) : t \in TextSet} \cup {C("native", "vec", 0, <<Blob(n)>>) : n \in Lens}
FewLeaves == {C("positive", "canonical", 0, <<U64(5)>>), C("native", "string", 0, <<<<97>>>>), C("raw", "array", 0, <<<<159, 255>>>>), C("byte", "two", 0, <<<<3>>>>)}
Opens(vs) ==
  {C(o, "indef", 0, <<>>) : o \in {"abuild", "mbuild", "obj"}} \cup {C("obj", "finite", 0, <<>>)}
  \cup {C(o, "from", 0, <<v>>) : o \in {"abuild", "mbuild", "tbuild"}, v \in vs}
  \cup UNION {Wide(o, v) : o \in {"abuild", "mbuild", "tbuild"}, v \in vs}
\* counts that are right for the shapes that are tried
FewOpens == {C(o, "indef", 0, <<>>) : o \in {"abuild", "mbuild", "obj"}} \cup {C("obj", "finite", 0, <<>>), C("tbuild", "from", 0, <<U64(1)>>), C("tbuild", "width", 2, <<<<0, 9>>>>)}
            \cup {C("abuild", "from", 0, <<U64(n)>>) : n \in {0, 1, 2}} \cup {C("abuild", "width", 4, <<<<0, 0, 0, 1>>>>)}
            \cup {C("mbuild", "from", 0, <<U64(n)>>) : n \in {0, 1}} \cup {C("mbuild", "width", 1, <<<<1>>>>)}
End == C("end", "", 0, <<>>)

Fill(n, v) == C("fill", "", 0, <<U64(n), U64(v)>>)
FillCalls == {Fill(n, 7) : n \in {22, 23, 24, 254, 255, 256}} \cup {Fill(n, 7) : n \in {65534, 65535, 65536}} \cup {Fill(2, 300), C("obj", "finite", 0, <<>>)}

Calls == IF Mode = "fills" THEN (IF prog = <<>> THEN {C("obj", h, 0, <<>>) : h \in {"finite", "indef"}} ELSE FillCalls)
         ELSE IF Mode = "calls" THEN Leaves \cup Opens(NumSet) ELSE FewLeaves \cup FewOpens
\* in MODE calls one call of every kind is put among others
Others == {C("native", "u64", 0, <<U64(1000)>>), C("abuild", "indef", 0, <<>>), C("mbuild", "from", 0, <<U64(1)>>), C("obj", "finite", 0, <<>>)}
Special(p) == \E i \in 1..Len(p) : p[i] \notin Others \cup {End}

Init == prog = <<>> /\ w = W0(<<>>)
Next == /\ Len(prog) < K
        /\ \E c \in (IF w.open = <<>> THEN {} ELSE {End}) \cup (IF Mode = "calls" /\ Special(prog) THEN Others ELSE Calls) :
             prog' = Append(prog, c) /\ w' = Write(w, c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the program as a tree: end of the builder opened before i *)
RECURSIVE EndOf(_, _, _)
EndOf(p, i, d) == IF i > Len(p) THEN i
                  ELSE IF p[i].op \in Builders THEN EndOf(p, i + 1, d + 1)
                  ELSE IF p[i].op = "end" THEN (IF d = 0 THEN i ELSE EndOf(p, i + 1, d - 1))
                  ELSE EndOf(p, i + 1, d)
NextOf(p, i) == IF p[i].op \in Builders THEN EndOf(p, i + 1, 0) + 1 ELSE i + 1
RECURSIVE Members(_, _, _)
Members(p, i, e) == IF i >= e THEN 0 ELSE Times(p[i]) + Members(p, NextOf(p, i), e)

RECURSIVE Means(_, _, _)
\* what the calls i..e-1 put out
Means(p, i, e) ==
  IF i >= e THEN <<>>
  ELSE LET c == p[i]  x == EndOf(p, i + 1, 0) IN
    IF c.op \notin Builders THEN Leaf(c) \o Means(p, i + 1, e)
    ELSE LET in == Means(p, i + 1, x)  n == Members(p, i + 1, x)  q == IF x > e THEN e ELSE x + 1
             major == CASE c.op \in {"abuild", "obj"} -> 4 [] c.op = "mbuild" -> 5 [] c.op = "tbuild" -> 6
             h == IF c.how = "indef" THEN <<32 * major + 31>>
                  ELSE IF c.op = "obj" THEN EncHead(4, CanonW(U64(n)), ToWidth(U64(n), CanonW(U64(n))))
                  ELSE IF c.how = "from" THEN EncHead(major, CanonW(c.a[1]), ToWidth(c.a[1], CanonW(c.a[1])))
                  ELSE EncHead(major, c.n, c.a[1])
         IN h \o in \o (IF c.how = "indef" THEN <<255>> ELSE <<>>) \o Means(p, q, e)

RECURSIVE Ends(_)
Ends(n) == IF n = 0 THEN <<>> ELSE Append(Ends(n - 1), End)
RECURSIVE WriteAll(_, _, _)
WriteAll(x, es, i) == IF i > Len(es) THEN x ELSE WriteAll(Write(x, es[i]), es, i + 1)
Closed == prog \o Ends(Len(w.open))
Final == WriteAll(w, Ends(Len(w.open)), 1).out

\* the incremental machine puts out what the tree means
IsTree == LET p == Closed IN Final = Means(p, 1, Len(p) + 1)

\* every announced count is right, every map has whole entries, every tag one content
RightCount(p, i) ==
  LET c == p[i]  n == Members(p, i + 1, EndOf(p, i + 1, 0))
      said == IF c.how \in {"from", "width"} THEN ToNat(c.a[1]) ELSE 0 IN
  CASE c.op = "abuild" -> c.how = "indef" \/ said = n
    [] c.op = "mbuild" -> n % 2 = 0 /\ (c.how = "indef" \/ said = n \div 2)
    [] c.op = "tbuild" -> n = 1
    [] OTHER -> TRUE
Honest(p) == \A i \in 1..Len(p) : RightCount(p, i)
RECURSIVE Row(_, _)
Row(B, p) == IF p = Len(B) THEN 0
             ELSE LET r == G!WellFormed(B, p) IN IF r <= 0 THEN 0 - 1000 ELSE 1 + Row(B, r)
\* honest programs write as many well-formed items as they have calls at the top
WritesItems == LET p == Closed IN (Honest(p) /\ Len(Final) < 3000) => Row(Final, 0) = Members(p, 1, Len(p) + 1)
\* a call only adds to what is there
Adds == [][/\ Len(w'.open) = Len(w.open) => SubSeq(w'.out, 1, Len(w.out)) = w.out
           /\ \A i \in 1..(IF Len(w'.open) < Len(w.open) THEN Len(w'.open) ELSE Len(w.open)) : w'.open[i].out = w.open[i].out]_vars

-----------------------------------------------------------------------------
O(c) == OpA("", c.op, c.how, c.n, c.a)
Prog(p) == [i \in 1..Len(p) |-> O(p[i])]
S1(first, last) == Emit("writer", <<>>, <<first>> \o Prog(Closed) \o <<Op("", "finalize", last)>>)
Sessions ==
  (Mode # "calls" \/ prog = <<>> \/ Special(prog)) =>
  /\ S1(Op("", "new", ""), "")
  /\ (Len(prog) <= 1 /\ Mode # "fills") => S1(OpA("", "new", "vec", 0, <<<<1, 159>>>>), "data")
=============================================================================
