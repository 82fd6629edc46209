----------------------------- MODULE CborItems -----------------------------
(***************************************************************************)
(* What one item at an offset consists of: chunks of a string, elements of *)
(* an array, pairs of a map, the content of a tag; UTF-8; error reports.   *)
(* Every operator returns a record with st = "ok" and p the offset after   *)
(* the item, or st = "err" with the error report in e and                  *)
(*   free   the caller may have moved (the item was of the asked kind, its *)
(*          head was complete, and the trouble lies further on)            *)
(***************************************************************************)
EXTENDS CborAcceptor

(* error reports: words, numbers, and whether another report is also true  *)
(* (input that is malformed and cut short at the same place)               *)
E(s, b) == [s |-> s, b |-> b, alt |-> FALSE]
EAlt(s, b, a) == [s |-> s, b |-> b, alt |-> a]
N8(n) == Pad8(NatBytes(n))
Fail(e, free) == [st |-> "err", e |-> e, free |-> free]

ScanErr(h) ==
  CASE h.st = "missing" -> EAlt(<<"missing", h.ctx>>, <<Pad8(h.exp), N8(h.got)>>,
                                IF "alt" \in DOMAIN h THEN h.alt ELSE FALSE)
    [] h.st \in BadLead -> E(<<"lead", h.st>>, <<<<h.lead>>>>)
    [] h.st = "state" -> E(<<"state">>, <<>>)

(* an error met past the head of a composite *)
Inside(h) == Fail(ScanErr(h), TRUE)

-----------------------------------------------------------------------------
(* UTF-8, RFC 3629 *)
\* the place after the character at i, 0 when there is none
Utf8Step(d, i) ==
  LET a == d[i]
      Cont(k, lo, hi) == i + k <= Len(d) /\ d[i + k] >= lo /\ d[i + k] <= hi
  IN
    IF a < 128 THEN i + 1
    ELSE IF a \in 194..223 THEN IF Cont(1, 128, 191) THEN i + 2 ELSE 0
    ELSE IF a \in 224..239 THEN
         IF /\ Cont(1, IF a = 224 THEN 160 ELSE 128, IF a = 237 THEN 159 ELSE 191)
            /\ Cont(2, 128, 191) THEN i + 3 ELSE 0
    ELSE IF a \in 240..244 THEN
         IF /\ Cont(1, IF a = 240 THEN 144 ELSE 128, IF a = 244 THEN 143 ELSE 191)
            /\ Cont(2, 128, 191) /\ Cont(3, 128, 191) THEN i + 4 ELSE 0
    ELSE 0
RECURSIVE Utf8Loop(_, _, _)
Utf8Loop(d, k, i) ==
  IF i = 0 \/ i > Len(d) THEN i
  ELSE IF k = 0 THEN Utf8Step(d, i) ELSE Utf8Loop(d, k - 1, Utf8Loop(d, k - 1, i))
Utf8(d) == Utf8Loop(d, Rounds(Len(d)), 1) # 0

-----------------------------------------------------------------------------
(* the head of an item that has to be of one of the kinds want *)
HeadAs(B, p, want, words) ==
  LET h == Hdr(B, p) IN
  IF h.st # "ok" THEN Fail(ScanErr(h), FALSE)
  ELSE IF h.k \in want THEN h
  ELSE Fail(E(<<"type">> \o words \o <<h.k>>, <<>>), FALSE)

Chunk(h, d) == [w |-> h.w, v |-> h.v, d |-> d]

Content(B, p, h, utf8) ==
  LET n == ToNat(h.v)  q == p + h.adv IN
  IF n > Len(B) - q THEN Fail(E(<<"missing", "Content">>, <<Pad8(h.v), N8(Len(B) - q)>>), TRUE)
  ELSE LET d == SubSeq(B, q + 1, q + n) IN
       IF utf8 /\ ~Utf8(d) THEN Fail(E(<<"utf8">>, <<>>), TRUE)
       ELSE [st |-> "ok", d |-> d, p |-> q + n]

\* chunks from p on: going, or the result; acc has the chunks of these steps
ChStep(B, p, k, utf8) ==
  LET h == Hdr(B, p)
      Bad(r) == [st |-> "bad", r |-> r, p |-> p, acc |-> <<>>]
  IN
  IF h.st = "missing" THEN
     \* the kind of a chunk whose length is cut short can be seen already
     LET other == h.ctx = "IndirectLen" /\ LeadKind(B[p + 1]) # k
     IN Bad(Fail([ScanErr(h) EXCEPT !.alt = other], TRUE))
  ELSE IF h.st # "ok" THEN Bad(Inside(h))
  ELSE IF h.k = "Break" THEN [st |-> "ok", p |-> p + 1, acc |-> <<>>]
  ELSE IF h.k # k \/ h.ind THEN Bad(Fail(E(<<"inner", h.k>>, <<>>), TRUE))
  ELSE LET c == Content(B, p, h, utf8) IN
       IF c.st # "ok" THEN Bad(c) ELSE [st |-> "going", p |-> c.p, acc |-> <<Chunk(h, c.d)>>]
RECURSIVE ChLoop(_, _, _, _, _)
ChLoop(B, p, k, utf8, rounds) ==
  IF rounds = 0 THEN ChStep(B, p, k, utf8)
  ELSE LET x == ChLoop(B, p, k, utf8, rounds - 1) IN
       IF x.st # "going" THEN x
       ELSE LET y == ChLoop(B, x.p, k, utf8, rounds - 1) IN [y EXCEPT !.acc = x.acc \o @]
Chunks(B, p, k, utf8) ==
  LET x == ChLoop(B, p, k, utf8, Rounds(Len(B) - p)) IN
  IF x.st = "bad" THEN x.r ELSE [st |-> "ok", ind |-> TRUE, ch |-> x.acc, p |-> x.p]

(* a byte or text string; utf8: contents have to be UTF-8 *)
ReadStr(B, p, k, utf8) ==
  LET h == HeadAs(B, p, {k}, <<k>>) IN
  IF h.st # "ok" THEN h
  ELSE IF h.ind
  THEN LET r == Chunks(B, p + 1, k, utf8) IN
       \* text that is also malformed or cut short further on can be refused for either
       IF r.st = "err" /\ r.e.s = <<"utf8">> /\ Scan(B, p).st # "ok" THEN [r EXCEPT !.e.alt = TRUE] ELSE r
  ELSE LET c == Content(B, p, h, utf8) IN
       IF c.st # "ok" THEN c
       ELSE [st |-> "ok", ind |-> FALSE, ch |-> <<Chunk(h, c.d)>>, p |-> c.p]

Payload(r) == Cat([i \in 1..Len(r.ch) |-> r.ch[i].d])

(* ReadStr back to bytes *)
CatChunks(maj, ch) == Cat([i \in 1..Len(ch) |-> EncHead(maj, ch[i].w, ch[i].v) \o ch[i].d])
EncStr(k, r) ==
  IF r.ind THEN EncIndef(MajorOf(k)) \o CatChunks(MajorOf(k), r.ch) \o <<BREAK>>
  ELSE CatChunks(MajorOf(k), r.ch)

-----------------------------------------------------------------------------
(* the parts of containers: <<from, to>> offset pairs *)
Slice(B, x) == SubSeq(B, x[1] + 1, x[2])

\* items from p on: n of them (seq and map: up to a break; odd: between a key and its value none may come)
PStep(B, how, z) ==
  IF IF how = "n" THEN z.n = 0 ELSE ~z.odd /\ z.p < Len(B) /\ B[z.p + 1] = BREAK
  THEN [z EXCEPT !.st = "ok", !.p = IF how = "n" THEN @ ELSE @ + 1, !.acc = <<>>]
  ELSE LET a == Scan(B, z.p) IN
       IF a.st # "ok" THEN [z EXCEPT !.st = "bad", !.r = Inside(a), !.acc = <<>>]
       ELSE [z EXCEPT !.p = a.p, !.n = IF how = "n" THEN @ - 1 ELSE @, !.odd = how = "map" /\ ~@, !.acc = <<<<z.p, a.p>>>>]
RECURSIVE PLoop(_, _, _, _)
PLoop(B, how, rounds, z) ==
  IF rounds = 0 THEN PStep(B, how, z)
  ELSE LET x == PLoop(B, how, rounds - 1, z) IN
       IF x.st # "going" THEN x
       ELSE LET y == PLoop(B, how, rounds - 1, x) IN [y EXCEPT !.acc = x.acc \o @]
Parts(B, p, how, n) ==
  LET x == PLoop(B, how, Rounds(Len(B) - p + 1), [st |-> "going", r |-> <<>>, p |-> p, n |-> n, odd |-> FALSE, acc |-> <<>>]) IN
  IF x.st = "bad" THEN x.r ELSE [st |-> "ok", parts |-> x.acc, p |-> x.p]

WithHead(h, r) == IF r.st # "ok" THEN r
                  ELSE [st |-> "ok", ind |-> h.ind, w |-> h.w, v |-> h.v, parts |-> r.parts, p |-> r.p]

ReadArr(B, p) ==
  LET h == HeadAs(B, p, {"Array"}, <<"Array">>) IN
  IF h.st # "ok" THEN h
  ELSE WithHead(h, IF h.ind THEN Parts(B, p + 1, "seq", 0)
                   ELSE Parts(B, p + h.adv, "n", ToNat(h.v)))

\* keys at odd, values at even places of parts
ReadMap(B, p) ==
  LET h == HeadAs(B, p, {"Map"}, <<"Map">>) IN
  IF h.st # "ok" THEN h
  ELSE WithHead(h, IF h.ind THEN Parts(B, p + 1, "map", 0)
                   ELSE LET n == ToNat(h.v) IN
                        Parts(B, p + h.adv, "n", IF n >= 1000000000 THEN Huge ELSE 2 * n))

ReadTag(B, p) ==
  LET h == HeadAs(B, p, {"Tag"}, <<"Tag">>) IN
  IF h.st # "ok" THEN h
  ELSE WithHead([h EXCEPT !.ind = FALSE], Parts(B, p + h.adv, "n", 1))

\* TLCEval: the elements are worked out once
PartBytes(B, r) == TLCEval([i \in 1..Len(r.parts) |-> Slice(B, r.parts[i])])
KeyBytes(B, r) == TLCEval([i \in 1..(Len(r.parts) \div 2) |-> Slice(B, r.parts[2 * i - 1])])
ValBytes(B, r) == TLCEval([i \in 1..(Len(r.parts) \div 2) |-> Slice(B, r.parts[2 * i])])

(* ReadArr/ReadMap/ReadTag back to bytes *)
EncParts(maj, r, bs) ==
  IF r.ind THEN EncIndef(maj) \o Cat(bs) \o <<BREAK>>
  ELSE EncHead(maj, r.w, r.v) \o Cat(bs)

(* every text in the item, at any depth, is UTF-8: what rebuilding from the *)
(* decoded parts needs *)
RECURSIVE AllUtf8(_, _)
AllUtf8(B, p) ==
  LET h == Hdr(B, p)
      In(r) == \A i \in 1..Len(r.parts) : AllUtf8(B, r.parts[i][1])
  IN
  CASE h.k = "Text" -> ReadStr(B, p, "Text", TRUE).st = "ok"
    [] h.k = "Array" -> In(ReadArr(B, p))
    [] h.k = "Map" -> In(ReadMap(B, p))
    [] h.k = "Tag" -> In(ReadTag(B, p))
    [] OTHER -> TRUE
=============================================================================
