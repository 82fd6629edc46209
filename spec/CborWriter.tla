----------------------------- MODULE CborWriter -----------------------------
(***************************************************************************)
(* The writer: the bytes written so far, and a stack of the builders that  *)
(* are open.  An element builder (obj) collects its elements on its own    *)
(* and puts out the array when it ends.                                    *)
(* A call is a record op, how, n (header width), a (byte strings).         *)
(***************************************************************************)
EXTENDS CborItems

W0(bytes) == [out |-> bytes, open |-> <<>>]
Arg1(c) == c.a[1]
CanonStrW(maj, d) == EncHeadCanon(maj, Pad8(NatBytes(Len(d)))) \o d

ChunksOut(maj, ds) == Cat([i \in 1..Len(ds) |-> CanonStrW(maj, ds[i])])

ConstByte(how) == CASE how = "False" -> 244 [] how = "True" -> 245 [] how = "Null" -> 246 [] how = "Undefined" -> 247

HeadOf(maj, c) == IF c.how = "indef" THEN EncIndef(maj)
                  ELSE IF c.how \in {"from", "canonical"} THEN EncHeadCanon(maj, Arg1(c))
                  ELSE EncHead(maj, c.n, Arg1(c))

\* how many values a call writes
Times(c) == IF c.op = "fill" THEN ToNat(Arg1(c)) ELSE 1

\* bytes of a call that writes a value
Leaf(c) ==
  CASE c.op \in {"positive", "scalar"} -> HeadOf(0, c)
    [] c.op \in {"negative", "nscalar"} -> HeadOf(1, c)
    [] c.op = "byte" -> LET x == Arg1(c)[1] IN
         IF c.how = "imm" \/ (c.how = "canonical" /\ x < 20) THEN <<224 + x>> ELSE <<248, x>>
    [] c.op \in {"constant", "bool"} -> <<ConstByte(c.how)>>
    [] c.op = "float" -> <<CASE Len(Arg1(c)) = 2 -> 249 [] Len(Arg1(c)) = 4 -> 250 [] Len(Arg1(c)) = 8 -> 251>> \o Arg1(c)
    [] c.op = "bytes" -> CanonStrW(2, Arg1(c))
    [] c.op = "text" -> CanonStrW(3, Arg1(c))
    [] c.op = "bchunks" -> EncIndef(2) \o ChunksOut(2, c.a) \o <<BREAK>>
    [] c.op = "tchunks" -> EncIndef(3) \o ChunksOut(3, c.a) \o <<BREAK>>
    [] c.op = "raw" -> Arg1(c)
    \* a number, again and again
    [] c.op = "fill" -> LET x == EncHeadCanon(0, c.a[2]) IN Cat([i \in 1..Times(c) |-> x])
    [] c.op = "native" -> CASE c.how = "u64" -> EncHeadCanon(0, Arg1(c))
                            [] c.how = "string" -> CanonStrW(3, Arg1(c))
                            [] c.how = "vec" -> CanonStrW(2, Arg1(c))

Builders == {"abuild", "mbuild", "tbuild", "obj"}
TopO(w) == w.open[Len(w.open)]
\* more elements for a collecting builder
Counted(w, n) == IF w.open # <<>> /\ TopO(w).t = "obj" THEN [w EXCEPT !.open[Len(w.open)].n = @ + n] ELSE w

OpenB(w, f) == [w EXCEPT !.open = Append(@, f)]
Fr(t, ind, out) == [t |-> t, ind |-> ind, n |-> 0, out |-> out]

Write(w0, c) ==
  LET w == IF c.op = "end" THEN w0 ELSE Counted(w0, Times(c)) IN
  CASE c.op = "abuild" -> [OpenB(w, Fr("b", c.how = "indef", <<>>)) EXCEPT !.out = @ \o HeadOf(4, c)]
    [] c.op = "mbuild" -> [OpenB(w, Fr("b", c.how = "indef", <<>>)) EXCEPT !.out = @ \o HeadOf(5, c)]
    [] c.op = "tbuild" -> [OpenB(w, Fr("b", FALSE, <<>>)) EXCEPT !.out = @ \o HeadOf(6, c)]
    [] c.op = "obj" -> [OpenB(w, Fr("obj", c.how = "indef", w.out)) EXCEPT !.out = <<>>]
    [] c.op = "end" ->
         LET f == TopO(w)  o == [w EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)] IN
         IF f.t = "b" THEN (IF f.ind THEN [o EXCEPT !.out = Append(@, BREAK)] ELSE o)
         ELSE [o EXCEPT !.out = f.out \o (IF f.ind THEN EncIndef(4) ELSE EncHeadCanon(4, Pad8(NatBytes(f.n))))
                                \o w.out \o (IF f.ind THEN <<BREAK>> ELSE <<>>)]
    [] OTHER -> [w EXCEPT !.out = @ \o Leaf(c)]
=============================================================================
