---------------------------- MODULE MCValidator ----------------------------
(***************************************************************************)
(* The validator over every buffer of at most K pieces: items, broken and  *)
(* cut ones, containers left open.                                         *)
(***************************************************************************)
EXTENDS CborValidator, Tokens, Emit, FiniteSets
G == INSTANCE CborGrammar
K == atoi(IOEnv.K)
VARIABLES b, n, p, failed, got
vars == <<b, n, p, failed, got>>

Pieces == {<<0>>, <<24, 24>>, <<25, 0, 1>>, <<57, 1, 0>>, <<246>>, <<248, 255>>, <<249, 0, 1>>, <<64>>, <<65, 7>>, <<89, 0, 2, 1, 2>>, <<91, 0, 0, 0, 0, 0, 0, 0, 1, 7>>, <<97, 97>>, <<97, 255>>,
           <<95>>, <<127>>, <<159>>, <<191>>, <<128>>, <<129>>, <<130>>, <<152, 2>>, <<160>>, <<161>>, <<184, 1>>, <<193>>, <<217, 1, 0>>, <<255>>,
           <<28>>, <<31>>, <<252>>, <<66, 1>>, <<24>>, <<155, 255, 255, 255, 255, 255, 255, 255, 255>>, <<187, 128, 0, 0, 0, 0, 0, 0, 0>>, <<123, 0, 0, 0, 1, 0, 0, 0, 1>>}
Few == {<<0>>, <<24, 24>>, <<65, 7>>, <<97, 97>>, <<95>>, <<159>>, <<191>>, <<130>>, <<161>>, <<193>>, <<255>>, <<28>>, <<66, 1>>, <<249, 1>>}

\* the buffer is made first, then calls are made on it
Init == b = <<>> /\ n = 0 /\ p = 0 /\ failed = FALSE /\ got = 0
Grow == /\ p = 0 /\ ~failed /\ n < K
        /\ \E t \in (IF n < 2 THEN Pieces ELSE Few) : b' = b \o t
        /\ n' = n + 1 /\ UNCHANGED <<p, failed, got>>
Call == /\ ~failed
        /\ LET r == NextItem(b, p) IN
             IF r.st = "ok" THEN p' = p + r.len /\ got' = got + 1 /\ failed' = FALSE
             ELSE failed' = TRUE /\ UNCHANGED <<p, got>>
        /\ UNCHANGED <<b, n>>
Next == Grow \/ Call
Spec == Init /\ [][Next]_vars

RECURSIVE CountItems(_, _)
CountItems(B, q) == LET r == G!WellFormed(B, q) IN IF r <= 0 THEN 0 ELSE 1 + CountItems(B, r)
RECURSIVE EndItems(_, _)
EndItems(B, q) == LET r == G!WellFormed(B, q) IN IF r <= 0 THEN q ELSE EndItems(B, r)
\* the items handed out are those of the grammar, one after the other, all of them before the first failure
Tiles == /\ p <= EndItems(b, 0)
         /\ failed => p = EndItems(b, 0) /\ got = CountItems(b, 0)
\* the end of the buffer is a failure like missing data
AtEnd == (p = Len(b)) => LET r == NextItem(b, p) IN r.st = "err" /\ r.end /\ r.e.s[1] = "missing"
\* broken and merely cut short are told apart
Cause == LET r == NextItem(b, p)  g == G!WellFormed(b, p) IN
         r.st = "err" => IF g = G!SHORT THEN r.e.s[1] = "missing" ELSE (r.e.s[1] # "missing" \/ r.e.alt)

RECURSIVE Nexts(_)
Nexts(k) == IF k = 0 THEN <<>> ELSE Append(Nexts(k - 1), Op("", "next", ""))
Sessions == (p = 0 /\ ~failed) => Emit("validator", b, Nexts(n + 3))
=============================================================================
