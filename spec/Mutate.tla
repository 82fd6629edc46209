------------------------------- MODULE Mutate -------------------------------
(***************************************************************************)
(* Other spellings of an item (same meaning), and its near misses.  Both   *)
(* work on the bytes of one whole well-formed item, at every depth.        *)
(***************************************************************************)
EXTENDS CborItems, FiniteSets

Splits(n) == IF n < 2 THEN {} ELSE IF n > 40 THEN {1, n \div 2} ELSE {1, n - 1, (n + 1) \div 2}
Str1(maj, d) == EncHeadCanon(maj, N8(Len(d))) \o d
LongStr(maj, d) == EncHead(maj, 2, ToWidth(N8(Len(d)), 2)) \o d
Ind(maj, body) == EncIndef(maj) \o body \o <<BREAK>>

Kids(x) == LET h == Hdr(x, 0) IN
  CASE h.k = "Array" -> PartBytes(x, ReadArr(x, 0))
    [] h.k = "Map" -> PartBytes(x, ReadMap(x, 0))
    [] h.k = "Tag" -> PartBytes(x, ReadTag(x, 0))
    [] OTHER -> <<>>

\* head and parts again, with other parts (as many)
With(x, ps) == LET h == Hdr(x, 0) IN
  IF h.ind THEN Ind(MajorOf(h.k), Cat(ps)) ELSE SubSeq(x, 1, h.adv) \o Cat(ps)

\* with any number of parts, the count following suit
Count(x, n) == LET h == Hdr(x, 0) IN
  IF h.ind THEN EncIndef(MajorOf(h.k)) ELSE EncHeadCanon(MajorOf(h.k), N8(IF h.k = "Map" THEN n \div 2 ELSE n))
Recount(x, ps) == LET h == Hdr(x, 0) IN
  Count(x, Len(ps)) \o Cat(ps) \o (IF h.ind THEN <<BREAK>> ELSE <<>>)

Replaced(x, S(_)) == LET ps == Kids(x) IN
  UNION {{With(x, [ps EXCEPT ![i] = y]) : y \in S(ps[i])} : i \in 1..Len(ps)}

-----------------------------------------------------------------------------
(* other spellings *)
WiderHead(x) == LET h == Hdr(x, 0) IN
  IF h.ind \/ h.k \notin (IntKinds \cup StrKinds \cup ContKinds \cup {"Tag"}) THEN {}
  ELSE {EncHead(MajorOf(h.k), w, ToWidth(Pad8(h.v), w)) \o SubSeq(x, h.adv + 1, Len(x)) : w \in {u \in {1, 2, 4, 8} : u > h.w}}
TwoByte(x) == LET h == Hdr(x, 0) IN IF h.k = "Byte" /\ h.w = 0 THEN {<<248, h.v[1]>>} ELSE {}
Indefinite(x) == LET h == Hdr(x, 0) IN
  IF h.ind THEN {}
  ELSE IF h.k \in ContKinds THEN {Ind(MajorOf(h.k), Cat(Kids(x)))}
  ELSE IF h.k \in StrKinds
  THEN LET m == MajorOf(h.k)  d == SubSeq(x, h.adv + 1, Len(x)) IN
       {Ind(m, Str1(m, d)), Ind(m, Str1(m, d) \o Str1(m, <<>>)), Ind(m, LongStr(m, d))}
       \cup (IF d = <<>> THEN {Ind(m, <<>>)} ELSE {})
       \cup {Ind(m, Str1(m, SubSeq(d, 1, c)) \o Str1(m, SubSeq(d, c + 1, Len(d)))) :
               c \in {c \in Splits(Len(d)) : h.k = "Bytes" \/ ~Utf8(d) \/ Utf8(SubSeq(d, 1, c))}}
  ELSE {}

\* of a string in chunks: a chunk with a wider head, two chunks as one, one more empty chunk, or all of it announced
Rechunked(x) == LET h == Hdr(x, 0) IN
  IF ~h.ind \/ h.k \notin StrKinds THEN {}
  ELSE LET m == MajorOf(h.k)  r == ReadStr(x, 0, h.k, FALSE)  n == Len(r.ch)
           One(c) == EncHead(m, c.w, c.v) \o c.d
           Put(i, s) == Ind(m, CatChunks(m, SubSeq(r.ch, 1, i - 1)) \o s \o CatChunks(m, SubSeq(r.ch, i + 1, n)))
       IN {Str1(m, Payload(r))} \cup {Put(i, One(r.ch[i]) \o Str1(m, <<>>)) : i \in 1..n}
          \cup UNION {{Put(i, EncHead(m, w, ToWidth(Pad8(r.ch[i].v), w)) \o r.ch[i].d) : w \in {u \in {1, 2, 4, 8} : u > r.ch[i].w}} : i \in 1..n}
          \cup (IF n < 2 THEN {} ELSE {Ind(m, Str1(m, Payload(r)))})

Top1(x) == WiderHead(x) \cup TwoByte(x) \cup Indefinite(x) \cup Rechunked(x)
RECURSIVE Spellings(_)
Spellings(x) == Top1(x) \cup Replaced(x, Spellings)

-----------------------------------------------------------------------------
(* near misses *)
OtherItems == {<<0>>, <<32>>, <<64>>, <<96>>, <<128>>, <<160>>, <<193, 0>>, <<244>>, <<246>>, <<247>>, <<224>>, <<249, 0, 0>>,
               <<95, 255>>, <<127, 255>>, <<159, 255>>, <<191, 255>>}
NumNear(v) ==
  LET p == Pad8(v)
      Add(i) == [p EXCEPT ![i] = (@ + 1) % 256]
      Turned == [i \in 1..8 |-> p[9 - i]]
      w == IF Sig(v) = 0 THEN 1 ELSE Sig(v)
      Back == [i \in 1..w |-> p[9 - i]]
      Sub1 == [p EXCEPT ![8] = (@ + 255) % 256]
  IN {Turned, Back, Add(8), Sub1, Add(7), Add(6), Add(5), Add(4), Add(1), [p EXCEPT ![8] = (@ + 32) % 256], [p EXCEPT ![8] = (@ + 64) % 256],
      [p EXCEPT ![8] = (@ + 128) % 256], [p EXCEPT ![1] = (@ + 128) % 256], [p EXCEPT ![4] = (@ + 128) % 256]}
Renumbered(x) == LET h == Hdr(x, 0) IN
  IF h.ind \/ h.k \notin IntKinds \cup {"Tag"} THEN {}
  ELSE {EncHeadCanon(MajorOf(h.k), v) \o SubSeq(x, h.adv + 1, Len(x)) : v \in NumNear(h.v)}
       \cup (IF h.k = "Positive" THEN {EncHeadCanon(1, h.v)} ELSE {})
\* a string a byte longer or shorter, with its head, and of the other kind
Resized(x) == LET h == Hdr(x, 0) IN
  IF h.ind \/ h.k \notin StrKinds THEN {}
  ELSE LET m == MajorOf(h.k)  d == SubSeq(x, h.adv + 1, Len(x)) IN
       {Str1(m, Append(d, 97)), Str1(5 - m, d)} \cup (IF d = <<>> THEN {} ELSE {Str1(m, SubSeq(d, 1, Len(d) - 1)), Str1(m, [d EXCEPT ![1] = 255])})
       \cup (IF h.k = "Text" THEN {Ind(3, Str1(3, SubSeq(d, 1, c)) \o Str1(3, SubSeq(d, c + 1, Len(d)))) : c \in Splits(Len(d))} ELSE {})
       \cup {Ind(m, Str1(5 - m, d)), Ind(m, Ind(m, Str1(m, d)))}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
SwapAt(s, i, k) == [s EXCEPT ![i] = s[i + k], ![i + k] = s[i]]
Entry(ps, i) == <<ps[2 * i - 1], ps[2 * i]>>
Entries(ps) == Len(ps) \div 2
\* places of a long sequence
Places(n) == IF n <= 6 THEN 1..n ELSE {1, 2, n \div 2, n - 1, n}
Reshaped(x) == LET h == Hdr(x, 0)  ps == Kids(x)  n == Len(ps) IN
  CASE h.k = "Array" ->
         {Recount(x, Drop(ps, i)) : i \in Places(n)} \cup {Recount(x, Twice(ps, i)) : i \in Places(n)}
         \cup {Recount(x, SwapAt(ps, i, 1)) : i \in {i \in Places(n) : i < n}}
         \cup {Recount(x, Append(ps, y)) : y \in {<<0>>, <<246>>}} \cup {Recount(x, <<<<0>>>> \o ps)}
         \cup {EncHeadCanon(5, N8((n + 1) \div 2)) \o Cat(ps) \o (IF n % 2 = 1 THEN <<0>> ELSE <<>>)}
    [] h.k = "Map" ->
         LET m == n \div 2 IN
         {Recount(x, Drop(Drop(ps, 2 * i), 2 * i - 1)) : i \in Places(m)}
         \cup {Recount(x, ps \o Entry(ps, i)) : i \in Places(m)}
         \cup {Recount(x, ps \o <<ps[2 * i - 1], <<0>>>>) : i \in Places(m)}
         \cup {Recount(x, SwapAt(SwapAt(ps, 2 * i, 2), 2 * i - 1, 2)) : i \in {i \in Places(m) : i < m}}
         \cup {Recount(x, ps \o <<k, <<0>>>>) : k \in {<<0>>, <<1>>, <<23>>, <<24, 24>>, <<24, 64>>, <<27, 1, 0, 0, 0, 0, 0, 0, 0>>, <<32>>, <<96>>}}
         \cup {EncHeadCanon(4, N8(n)) \o Cat(ps)}
         \cup (IF h.ind /\ n > 0 THEN {Ind(5, Cat(SubSeq(ps, 1, n - 1)))} ELSE {})
    [] h.k = "Tag" -> {ps[1], SubSeq(x, 1, h.adv) \o x, <<193>> \o x}
    [] OTHER -> {}
\* the count or the length says otherwise, nothing else
Lying(x) == LET h == Hdr(x, 0) IN
  IF h.ind \/ h.k \notin StrKinds \cup ContKinds THEN {}
  ELSE {EncHeadCanon(MajorOf(h.k), v) \o SubSeq(x, h.adv + 1, Len(x)) : v \in {[Pad8(h.v) EXCEPT ![8] = (@ + 1) % 256], [Pad8(h.v) EXCEPT ![8] = (@ + 255) % 256]}}
\* what a lenient decoder might take for the item: wrapped once more, unwrapped, or the same thing said in another kind
Digits(n) == <<48 + n>>
Coerced(x) == LET h == Hdr(x, 0)  ps == Kids(x)  d == IF h.ind THEN <<>> ELSE SubSeq(x, h.adv + 1, Len(x)) IN
  {<<129>> \o x, <<159>> \o x \o <<255>>, <<161, 0>> \o x, <<216, 24>> \o Str1(2, x), <<217, 217, 247>> \o x}
  \cup (CASE h.k \in IntKinds ->
               LET m == MajorOf(h.k)  n == Pad8(h.v)  s == SubSeq(n, 9 - Sig(n), 8) IN
               {<<194 + m>> \o Str1(2, s), <<194 + m>> \o Str1(2, n), Str1(2, s), <<251>> \o n, <<193>> \o x}
               \cup (IF Sig(n) > 1 THEN {}
                     ELSE {IF n[8] < 24 THEN <<224 + n[8]>> ELSE <<248, n[8]>>, <<248, n[8]>>, <<249, 0, n[8]>>}
                          \cup (IF n[8] < 10 THEN {Str1(3, Digits(n[8]))} ELSE {})
                          \cup (CASE n[8] = 0 -> {<<250, 0, 0, 0, 0>>, <<251, 0, 0, 0, 0, 0, 0, 0, 0>>}
                                [] n[8] = 1 -> {<<245>>, <<249, 60, 0>>, <<250, 63, 128, 0, 0>>, <<251, 63, 240, 0, 0, 0, 0, 0, 0>>}
                                [] OTHER -> {}))
          [] h.k \in {"True", "False"} -> {<<1>>, <<244>>, <<245>>, <<248, x[1] % 32>>, Str1(3, <<116>>)}
          [] h.k \in StrKinds -> {<<193>> \o x, <<194>> \o x} \cup
               (IF h.ind \/ Len(d) > 32 THEN {}
                ELSE {EncHeadCanon(4, N8(Len(d))) \o Cat([i \in 1..Len(d) |-> EncHeadCanon(0, <<d[i]>>)]), Str1(5 - MajorOf(h.k), x)})
          [] h.k = "Array" -> (IF ps = <<>> THEN {} ELSE {ps[1], Cat(ps), Recount(x, <<ps[1]>> \o Tail(ps) \o <<<<246>>>>), Recount(x, <<x>>)})
          [] h.k = "Map" -> (IF ps = <<>> THEN {} ELSE {ps[2], Recount(x, Drop(Drop(ps, 2), 1) \o <<Str1(3, Digits(0)), ps[2]>>)})
          [] h.k = "Tag" -> {<<130>> \o EncHeadCanon(0, h.v) \o ps[1], Recount(<<129, 0>>, <<x>>)}
          [] OTHER -> {})
Miss1(x) == OtherItems \cup Renumbered(x) \cup Resized(x) \cup Reshaped(x) \cup Lying(x) \cup Coerced(x)
\* only some of the parts of long ones
RECURSIVE Misses(_)
Misses(x) == Miss1(x) \cup
  (LET ps == Kids(x) IN UNION {{With(x, [ps EXCEPT ![i] = y]) : y \in Misses(ps[i])} : i \in Places(Len(ps))})
Cut(x) == {SubSeq(x, 1, c) : c \in {0, 1, Len(x) \div 2, Len(x) - 1} \cap 0..(Len(x) - 1)}
After(x) == {x \o y : y \in {<<0>>, <<255>>, <<246>>, <<24>>, <<28>>, x}}
=============================================================================
