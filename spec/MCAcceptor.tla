----------------------------- MODULE MCAcceptor -----------------------------
(***************************************************************************)
(* The event acceptor on every sequence of accepted events of at most K    *)
(* (MODE paths), or in every stack of at most K open containers (MODE      *)
(* stacks, one history for each stack), with every event tried in each     *)
(* state.  The oracle is the RFC grammar on the bytes of the events.       *)
(***************************************************************************)
EXTENDS CborAcceptor, Emit, FiniteSets
G == INSTANCE CborGrammar
Mode == IOEnv.MODE
K == atoi(IOEnv.K)
VARIABLES hist, stack
vars == <<hist, stack>>
JustStack == stack

Ev(op, how, w, v) == [op |-> op, how |-> how, w |-> w, v |-> v]
Plain == {Ev("simple", "", 0, <<>>), Ev("tag", "", 0, <<>>), Ev("brk", "", 0, <<>>),
          Ev("text", "indef", 0, <<>>), Ev("bytes", "indef", 0, <<>>), Ev("array", "indef", 0, <<>>), Ev("map", "indef", 0, <<>>),
          Ev("text", "", 0, <<3>>), Ev("bytes", "", 0, <<0>>)}
Few == {Ev(o, "", x[1], x[2]) : o \in {"array", "map"}, x \in {<<0, <<0>>>>, <<0, <<1>>>>, <<1, <<2>>>>, <<8, <<0, 0, 0, 1, 0, 0, 0, 0>>>>}}
Counts == { <<0, <<0>>>>, <<1, <<0>>>>, <<2, <<0, 0>>>>, <<4, Zeros(4)>>, <<8, Zeros(8)>>, <<0, <<1>>>>, <<1, <<2>>>>, <<2, <<0, 1>>>>,
            <<4, <<0, 0, 0, 2>>>>, <<8, <<0, 0, 0, 0, 0, 0, 0, 1>>>>,
            <<4, <<255, 255, 255, 255>>>>, <<8, <<0, 0, 0, 1, 0, 0, 0, 0>>>>, <<8, <<0, 0, 0, 1, 0, 0, 0, 1>>>>,
            <<8, <<127, 255, 255, 255, 255, 255, 255, 255>>>>, <<8, <<128, 0, 0, 0, 0, 0, 0, 0>>>>, <<8, <<128, 0, 0, 0, 0, 0, 0, 1>>>>,
            <<8, <<255, 255, 255, 255, 255, 255, 255, 255>>>> }
Many == {Ev(o, "", x[1], x[2]) : o \in {"array", "map"}, x \in Counts}
        \cup {Ev(o, "", 8, <<255, 255, 255, 255, 255, 255, 255, 255>>) : o \in {"bytes", "text"}}
Tried == IF Mode = "paths" THEN Plain \cup Few ELSE Plain \cup Few \cup Many
Taken == Plain \cup Few

KindOf(e) == CASE e.op = "simple" -> "Positive" [] e.op = "text" -> "Text" [] e.op = "bytes" -> "Bytes"
               [] e.op = "array" -> "Array" [] e.op = "map" -> "Map" [] e.op = "tag" -> "Tag" [] e.op = "brk" -> "Break"
Step(s, e) == Feed(s, KindOf(e), e.how = "indef", IF e.v = <<>> THEN 0 ELSE ToNat(e.v))

Init == hist = <<>> /\ stack = <<>>
Deep == IF Mode = "paths" THEN Len(hist) >= K ELSE Len(hist) >= 4 * K
Next == /\ ~Deep
        /\ \E e \in Taken : LET f == Step(stack, e) IN
             /\ f.ok
             /\ Mode = "stacks" => Len(f.s) <= K
             /\ hist' = Append(hist, e) /\ stack' = f.s
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the bytes of an event; strings are empty *)
Bytes1(e) ==
  CASE e.op = "simple" -> <<0>> [] e.op = "tag" -> <<193>> [] e.op = "brk" -> <<255>>
    [] e.op = "bytes" -> IF e.how = "indef" THEN <<95>> ELSE <<64>>
    [] e.op = "text" -> IF e.how = "indef" THEN <<127>> ELSE <<96>>
    [] e.op = "array" -> IF e.how = "indef" THEN <<159>> ELSE EncHead(4, e.w, e.v)
    [] e.op = "map" -> IF e.how = "indef" THEN <<191>> ELSE EncHead(5, e.w, e.v)
RECURSIVE BytesOf(_, _)
BytesOf(h, k) == IF k > Len(h) THEN <<>> ELSE Bytes1(h[k]) \o BytesOf(h, k + 1)

\* a row of items: 1 whole, SHORT or BAD
RECURSIVE Row(_, _)
Row(B, p) == IF p = Len(B) THEN 1
             ELSE LET r == G!WellFormed(B, p) IN IF r <= 0 THEN r ELSE Row(B, r)

\* acceptable exactly between whole items
Acceptable == LET v == Row(BytesOf(hist, 1), 0) IN IF stack = <<>> THEN v = 1 ELSE v = G!SHORT
\* an event is refused exactly when nothing well-formed goes on that way
Refuses == LET b == BytesOf(hist, 1) IN
           \A e \in Tried : LET f == Step(stack, e)  v == Row(b \o Bytes1(e), 0) IN
             IF f.ok THEN v = (IF f.s = <<>> THEN 1 ELSE G!SHORT) ELSE v = G!BAD /\ f.s = stack

\* what closes the containers that are open, when no count is huge
Closable(s) == \A k \in 1..Len(s) : s[k].n < Huge
Rep(e, n) == [k \in 1..n |-> e]
Simple == Ev("simple", "", 0, <<>>)
Brk == Ev("brk", "", 0, <<>>)
RECURSIVE FedAll(_, _, _)
FedAll(s, es, k) == IF k > Len(es) THEN Yes(s)
                    ELSE LET f == Step(s, es[k]) IN IF f.ok THEN FedAll(f.s, es, k + 1) ELSE No(s)
RECURSIVE Closing(_)
Closing(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET f == Top(s)
           es == CASE f.t = "arr" -> Rep(Simple, f.n)
                   [] f.t = "map" -> Rep(Simple, 2 * f.n - (IF f.e THEN 1 ELSE 0))
                   [] f.t = "tag" -> <<Simple>>
                   [] f.t = "smap" /\ f.e -> <<Simple, Brk>>
                   [] OTHER -> <<Brk>>
       IN es \o Closing(FedAll(s, es, 1).s)
\* every state can be gone on from to a whole item
Reachable == Closable(stack) => LET r == FedAll(stack, Closing(stack), 1) IN r.ok /\ r.s = <<>>

-----------------------------------------------------------------------------
O(e) == IF e.v = <<>> THEN Op("", e.op, e.how) ELSE OpA("", e.op, e.how, e.w, <<e.v>>)
Ops(es) == [k \in 1..Len(es) |-> O(es[k])]
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ListOf(S \ {x})
Refused(s) == ListOf({e \in Tried : ~Step(s, e).ok})

RECURSIVE Probed(_, _, _)
Probed(s, es, k) == IF k > Len(es) THEN Refused(s)
                    ELSE Refused(s) \o <<es[k]>> \o Probed(Step(s, es[k]).s, es, k + 1)

\* the way here, everything refused, one more event, and the way out
Sessions ==
  IF Mode = "paths"
  THEN (Deep \/ hist = <<>>) => Emit("acceptor", <<>>, Ops(Probed(<<>>, hist, 1)) \o Ops(IF Closable(stack) THEN Closing(stack) ELSE <<>>))
  ELSE \A e \in Tried : LET f == Step(stack, e) IN f.ok =>
         Emit("acceptor", <<>>, Ops(hist) \o Ops(Refused(stack)) \o <<O(e)>> \o Ops(IF Closable(f.s) THEN Closing(f.s) ELSE <<Simple, Simple>>))
=============================================================================
