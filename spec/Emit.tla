-------------------------------- MODULE Emit --------------------------------
(* Printing sessions for the real crate to run, from model checking runs.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Emitting == IOEnv.EMIT = "1"
Op(f, op, how) == [f |-> f, op |-> op, how |-> how, n |-> 0, a |-> <<>>]
OpA(f, op, how, n, a) == [f |-> f, op |-> op, how |-> how, n |-> n, a |-> a]
OpV(f, op, how, v) == [f |-> f, op |-> op, how |-> how, n |-> 0, a |-> <<>>, v |-> v]
Session(k, in, ev) == ToJson([k |-> k, in |-> in, ev |-> ev])
\* TRUE, printing
Emit(k, in, ev) == Emitting => PrintT("SESSION " \o Session(k, in, ev))
=============================================================================
