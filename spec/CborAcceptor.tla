---------------------------- MODULE CborAcceptor ----------------------------
(***************************************************************************)
(* The push-down acceptor of item events: a stack of open containers, the  *)
(* top last.  One operator application is one event of the streaming       *)
(* acceptor; a refused event leaves the stack as it was.                   *)
(*                                                                         *)
(*   arr n     definite array, n elements outstanding                      *)
(*   map n e   definite map, n entries outstanding, e = value expected     *)
(*   tag       a tag waiting for its content                               *)
(*   sarr      indefinite array                                            *)
(*   smap e    indefinite map                                              *)
(*   sbytes / stext   indefinite string                                    *)
(***************************************************************************)
EXTENDS CborWire

Frame(t, n, e) == [t |-> t, n |-> n, e |-> e]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]
Replace(s, f) == [s EXCEPT ![Len(s)] = f]

\* one less; a huge count stays huge
Less(n) == IF n >= Huge THEN n ELSE n - 1

\* a container that needs one item and nothing more
Last1(f) == f.t = "tag" \/ (f.t = "arr" /\ f.n = 1) \/ (f.t = "map" /\ f.e /\ f.n = 1)
\* the topmost of the frames a to b that needs more than that, 0 if none
RECURSIVE TopOpen(_, _, _)
TopOpen(s, a, b) == IF a > b THEN 0
                    ELSE IF ~Last1(s[b]) THEN b
                    ELSE IF a = b THEN 0
                    ELSE LET m == (a + b) \div 2  r == TopOpen(s, m + 1, b) IN IF r > 0 THEN r ELSE TopOpen(s, a, m)

(* one item has been completed inside the top container: so are the        *)
(* containers that waited for it alone, and the next one has one more      *)
Complete(s) ==
  LET k == TopOpen(s, 1, Len(s)) IN
  IF k = 0 THEN <<>>
  ELSE LET f == s[k]  z == SubSeq(s, 1, k) IN
    CASE f.t = "arr" -> Replace(z, [f EXCEPT !.n = Less(f.n)])
      [] f.t = "map" -> IF ~f.e THEN Replace(z, [f EXCEPT !.e = TRUE])
                        ELSE Replace(z, [f EXCEPT !.e = FALSE, !.n = Less(f.n)])
      [] f.t = "smap" -> Replace(z, [f EXCEPT !.e = ~f.e])
      [] OTHER -> z

InChunks(s) == s # <<>> /\ Top(s).t \in {"sbytes", "stext"}
ChunkOf(s) == IF Top(s).t = "sbytes" THEN "Bytes" ELSE "Text"

Yes(s) == [ok |-> TRUE, s |-> s]
No(s) == [ok |-> FALSE, s |-> s]

(* event: kind, indefinite flag, announced length or count *)
Feed(s, k, ind, n) ==
  IF k = "Break" THEN
    IF s = <<>> THEN No(s)
    ELSE IF Top(s).t \in {"sarr", "sbytes", "stext"} \/ (Top(s).t = "smap" /\ ~Top(s).e)
         THEN Yes(Complete(Pop(s)))
         ELSE No(s)
  ELSE IF InChunks(s) THEN
    IF k = ChunkOf(s) /\ ~ind THEN Yes(s) ELSE No(s)
  ELSE CASE k = "Tag" -> Yes(Append(s, Frame("tag", 0, FALSE)))
         [] k = "Array" -> IF ind THEN Yes(Append(s, Frame("sarr", 0, FALSE)))
                           ELSE IF n = 0 THEN Yes(Complete(s))
                           ELSE Yes(Append(s, Frame("arr", n, FALSE)))
         [] k = "Map" -> IF ind THEN Yes(Append(s, Frame("smap", 0, FALSE)))
                         ELSE IF n = 0 THEN Yes(Complete(s))
                         ELSE Yes(Append(s, Frame("map", n, FALSE)))
         [] k \in StrKinds /\ ind -> Yes(Append(s, Frame(IF k = "Bytes" THEN "sbytes" ELSE "stext", 0, FALSE)))
         [] OTHER -> Yes(Complete(s))

(* the same event over and over, up to the first refusal *)
RECURSIVE FeedRep(_, _, _, _, _)
FeedRep(s, k, ind, n, m) ==
  IF m = 0 THEN Yes(s)
  ELSE IF m = 1 THEN Feed(s, k, ind, n)
  ELSE LET a == m \div 2  f == FeedRep(s, k, ind, n, a) IN
       IF f.ok THEN FeedRep(f.s, k, ind, n, m - a) ELSE f

(* scan of one whole item at offset p, one head per step: z is the stack  *)
(* before it, or the result r when there is one; alt marks a shortage at a *)
(* head the stack refuses anyway                                           *)
Going == [st |-> "going"]
ScanAt(p, s) == [r |-> Going, p |-> p, s |-> s]
ScanEnd(r) == [r |-> r, p |-> 0, s |-> <<>>]
ScanStep(B, z) ==
  LET h == Hdr(B, z.p) IN
  IF h.st = "missing" THEN
     ScanEnd(IF h.ctx = "IndirectLen" /\ ~Feed(z.s, LeadKind(B[z.p + 1]), FALSE, 1).ok
             THEN [st |-> "missing", ctx |-> h.ctx, exp |-> h.exp, got |-> h.got, alt |-> TRUE]
             ELSE h)
  ELSE IF h.st # "ok" THEN ScanEnd(h)
  ELSE LET n == IF h.ind \/ h.k \notin (StrKinds \cup ContKinds) THEN 0 ELSE ToNat(h.v)
           data == IF h.k \in StrKinds /\ ~h.ind THEN n ELSE 0
           q == z.p + h.adv
           f == Feed(z.s, h.k, h.ind, n)
       IN IF data > Len(B) - q
          THEN ScanEnd([st |-> "missing", ctx |-> "Content", exp |-> h.v, got |-> Len(B) - q, alt |-> ~f.ok])
          ELSE IF ~f.ok THEN ScanEnd([st |-> "state", k |-> h.k])
          ELSE IF f.s = <<>> THEN ScanEnd([st |-> "ok", p |-> q + data])
          ELSE ScanAt(q + data, f.s)

RECURSIVE ScanLoop(_, _, _)
ScanLoop(B, k, z) ==
  IF k = 0 THEN ScanStep(B, z)
  ELSE LET y == ScanLoop(B, k - 1, z) IN IF y.r.st # "going" THEN y ELSE ScanLoop(B, k - 1, y)

Scan(B, p) ==
  LET y == ScanStep(B, ScanAt(p, <<>>)) IN
  IF y.r.st # "going" THEN y.r ELSE ScanLoop(B, Rounds(Len(B) - p), y).r
=============================================================================
