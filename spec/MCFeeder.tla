------------------------------ MODULE MCFeeder ------------------------------
(***************************************************************************)
(* The refill loop on every item made of at most K pieces, from every      *)
(* number of bytes to begin with: it fetches what is reported missing      *)
(* until the item can be taken.                                            *)
(***************************************************************************)
EXTENDS CborFeeder, Tokens, Emit, FiniteSets
G == INSTANCE CborGrammar
K == atoi(IOEnv.K)
VARIABLES b, n, phase, have
vars == <<b, n, phase, have>>

First == IntT \cup ConstT \cup ByteT \cup FloatT \cup BytesT \cup TextT \cup IndT \cup ArrT \cup MapT \cup TagT
         \cup {<<121, 0, 3, 226, 130, 172>>, <<122, 0, 0, 0, 1, 97>>, <<91, 0, 0, 0, 0, 0, 0, 0, 2, 1, 2>>, <<154, 0, 0, 0, 2>>, <<187, 0, 0, 0, 0, 0, 0, 0, 1>>,
               <<218, 0, 0, 0, 5>>, <<219, 1, 2, 3, 4, 5, 6, 7, 8>>, <<26, 1, 2, 3, 4>>, <<59, 1, 2, 3, 4, 5, 6, 7, 8>>}
More == {<<0>>, <<24, 24>>, <<246>>, <<249, 0, 1>>, <<66, 7, 8>>, <<97, 97>>, <<120, 2, 195, 169>>, <<95>>, <<127>>, <<159>>, <<191>>, <<130>>, <<161>>, <<193>>, <<255>>}
Item0 == Scan(b, 0)

Init == b = <<>> /\ n = 0 /\ phase = "make" /\ have = 0
Grow == /\ phase = "make" /\ n < K /\ (b = <<>> \/ Item0.st = "missing")
        /\ \E t \in (IF n = 0 THEN First ELSE More) : b' = b \o t
        /\ n' = n + 1 /\ UNCHANGED <<phase, have>>
Ready == phase = "make" /\ Item0.st = "ok" /\ ReadAny(b, 0).st = "ok"
Start == Ready /\ phase' = "feed" /\ have' \in 0..Len(b) /\ UNCHANGED <<b, n>>
Got == SubSeq(b, 1, have)
Need == LET a == Scan(Got, 0) IN ToNat(a.exp) - a.got
Fetch == /\ phase = "feed" /\ have < Len(b)
         /\ have' = have + Need /\ UNCHANGED <<b, n, phase>>
Done == phase = "feed" /\ have >= Item0.p /\ phase' = "done" /\ UNCHANGED <<b, n, have>>
Next == Grow \/ Start \/ Fetch \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Fetch \/ Done)

\* with less than the item, data is missing, at least a byte and never more than the item needs
Asks == (phase = "feed" /\ have < Item0.p) => LET a == Scan(Got, 0) IN a.st = "missing" /\ GoodShort(Need, have, Item0.p)
\* so the loop takes exactly the item
NeverOver == phase \in {"feed", "done"} => have <= Len(b) /\ (phase = "done" => have = Item0.p)
Finishes == (phase = "feed") ~> (phase = "done")
\* an item is never the beginning of a longer one
PrefixFree == Ready => \A c \in 0..(Len(b) - 1) : G!WellFormed(SubSeq(b, 1, c), 0) = G!SHORT

Hows == {"validator", "data", "slice", "typed", "decode", "raw"} \cup (IF LeadKind(b[1]) \in IntKinds THEN {"scalar"} ELSE {})
RECURSIVE Cuts(_, _)
Cuts(h, c) == IF c < 0 THEN <<>> ELSE <<OpA("", "cut", "", c, <<>>), Op("", "try", h)>> \o Cuts(h, c - 1)
\* what follows the item does not matter
After == IF n < 2 THEN {<<>>, <<0>>, <<255>>, <<28>>} ELSE {<<>>, <<255>>}
Sessions == Ready => \A h \in Hows : \A t \in After :
   Emit("feeder", b \o t, <<OpA("", "cut", "", 0, <<>>), Op("", "loop", h), OpA("", "cut", "", Len(b) \div 2, <<>>), Op("", "loop", h)>> \o Cuts(h, Len(b) + Len(t)))
=============================================================================
