----------------------------- MODULE TraceTyped -----------------------------
(* Sessions of typed decoding, raw typed data, and encoding. *)
EXTENDS CborTypes, TraceBase
VARIABLES i, j
vars == <<i, j>>
Init == i \in 1..N /\ j = 1

RECURSIVE SubsequenceFrom(_, _, _, _)
SubsequenceFrom(a, x, b, y) ==
  IF x > Len(a) THEN TRUE ELSE IF y > Len(b) THEN FALSE
  ELSE IF a[x] = b[y] THEN SubsequenceFrom(a, x + 1, b, y + 1) ELSE SubsequenceFrom(a, x, b, y + 1)
Subsequence(a, b) == SubsequenceFrom(a, 1, b, 1)

Bar(s) == CHOOSE x \in 1..Len(s) : s[x] = "|"
Words(s) == SubSeq(s, 1, Bar(s) - 1)
Path(s) == SubSeq(s, Bar(s) + 1, Len(s))

\* a refusal for trailing data: where it is, or at least how much it is
Trailing(r, s, b) == \/ s = r.s /\ b = r.b
                     \/ s = <<"left">> /\ b = <<r.b[2]>>

\* a report in free words has the words and numbers in it that it must, and after "got" (first in b, if there) what was found
InSeq1(x, s) == \E y \in 1..Len(s) : s[y] = x
Told(w, b, r) ==
  /\ w # <<>> /\ w[1] = "custom"
  /\ \A x \in 2..Len(r.s) : InSeq1(r.s[x], w)
  /\ b[1] = <<>> \/ r.b[1] = <<>> \/ b[1] = r.b[1]
  /\ \A x \in 1..Len(r.b) : r.b[x] = <<>> \/ InSeq1(r.b[x], Tail(b))
Says(w, b, r) == CASE r.s = <<"trailing">> -> Trailing(r, w, b)
                   [] r.s # <<>> /\ r.s[1] = "custom" -> Told(w, b, r)
                   [] OTHER -> w = r.s /\ b = r.b
Refused(e, r) ==
  /\ e.c = "err"
  /\ Strict =>
       LET Is(q) == Says(Words(e.s), e.b, q) /\ (Path(e.s) = <<"?">> \/ Subsequence(q.path, Path(e.s)))
       IN r.alt \/ Is(r) \/ \E x \in 1..Len(r.other) : Is(r.other[x])

Back(e) == LET r == Whole(e.op, Enc(e.op, e.v)) IN IF r.st = "ok" THEN r.v ELSE V("refused", <<>>, <<>>)

Copies(e, x) == Len(e.b) = 8 /\ \A y \in 1..8 : e.b[y] = x

Want(e, B) ==
  CASE e.f = "d" -> DecPath(e.op, e.how, B)
    [] e.f = "w" -> RawPath(e.op, e.how, B)
    [] e.f = "n" -> DOk(V("bytes", EncPath(e.op, e.how, e.v), <<>>), 0)

Explained(e, w, B) ==
  IF w.st # "ok" THEN Refused(e, w)
  ELSE /\ e.c = "ok"
       /\ CASE e.f = "d" -> e.r = w.v /\ (e.how \in {"dec", "trait"} => e.p = w.p)
            [] e.f = "w" -> /\ Copies(e, SubSeq(B, 1, w.p))
                            /\ e.r.l = <<w.v, w.v, w.v>>
                            /\ (e.how \in {"exslice", "exdata", "dec"} => e.p = w.p)
            [] e.f = "n" -> /\ e.b = <<w.v.b>>
                            \* read back by the crate; by the specification it is the value itself unless the type is
                            \* ambiguous (an enum by type with a variant written as another kind)
                            /\ e.r = e.v \/ e.r = Back(e)

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j]
               B == Log[i].in
               w == Want(e, B)
           IN IF Explained(e, w, B) THEN j' = j + 1 ELSE Report(i, j, w) /\ j' = STOP + j
Spec == Init /\ [][Next]_vars
=============================================================================
