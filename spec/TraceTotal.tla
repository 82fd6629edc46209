----------------------------- MODULE TraceTotal -----------------------------
(***************************************************************************)
(* Sessions on hostile input, where only the envelope is specified: every  *)
(* call comes back with a value or an error, the reader and the validator  *)
(* move forward only, consumed and remaining bytes add up to the length,   *)
(* and memory and time stay within bounds linear in the length.            *)
(* v of an event, when there: the outcome that was worked out for it.      *)
(* m of an event: remaining bytes, peak memory in units of 64 bytes,       *)
(* milliseconds of processor time, and all memory asked for during the     *)
(* call, however briefly, in units of 64 bytes: what is copied again and   *)
(* again shows there, without a clock.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, TraceBase
VARIABLES i, j, rp, vp
vars == <<i, j, rp, vp>>
Init == i \in 1..N /\ j = 1 /\ rp = 0 /\ vp = 0

MaxPeak(len) == 8 * len + 512
MaxAll(len) == 16 * len + 1024
MaxMs(len) == 3000 + len \div 500

From(e) == CASE e.f = "val" -> vp [] e.f = "d" -> 0 [] OTHER -> rp

Good(e, len) ==
  /\ e.c \in {"ok", "err"}
  /\ From(e) <= e.p /\ e.p <= len
  /\ e.m[1] = len - e.p
  /\ e.m[2] <= MaxPeak(len)
  /\ e.m[3] <= MaxMs(len)
  /\ e.m[4] <= MaxAll(len)
  /\ "v" \in DOMAIN e => e.c = e.v.c /\ (e.c = "ok" => e.p = e.v.p)

Next == /\ j <= Len(Log[i].ev)
        /\ UNCHANGED i
        /\ LET e == Log[i].ev[j] IN
           IF e.c # "panic" /\ Good(e, Log[i].len)
           THEN /\ j' = j + 1
                /\ vp' = IF e.f = "val" THEN e.p ELSE vp
                /\ rp' = IF e.f \in {"val", "d"} THEN rp ELSE e.p
           ELSE Report(i, j, <<rp, vp>>) /\ j' = STOP + j /\ UNCHANGED <<rp, vp>>
Spec == Init /\ [][Next]_vars
=============================================================================
