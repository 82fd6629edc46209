----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Checking recorded sessions of the real crate against the specification. *)
(* TRACE is a file with one session per line; i is the session, j the      *)
(* number of events explained so far plus one.  A session whose next event *)
(* the specification does not allow is reported and goes no further.       *)
(* LEVEL says what is asked of a refusal, besides that it is one:          *)
(*   value   nothing more                                                  *)
(*   pos     what it did to the position                                   *)
(*   report  the error report is the one the specification names           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Level == IOEnv.LEVEL
Strict == Level = "report"
N == Len(Log)

STOP == 1000000
Report(i, j, want) ==
  PrintT("MISMATCH " \o ToJson([i |-> i, j |-> j, want |-> want]))

\* an event against an outcome; the call was made at position p0 of len bytes
Fits(e, o, p0, len) ==
  /\ e.c = o.c
  /\ IF o.c = "ok" THEN e.s = o.s /\ e.b = o.b /\ e.p = o.p
     ELSE /\ p0 <= e.p /\ e.p <= len
          /\ (Level = "pos" /\ ~o.free) => e.p = p0
          /\ (Strict /\ ~o.alt) => (e.s = o.s /\ e.b = o.b)
=============================================================================
