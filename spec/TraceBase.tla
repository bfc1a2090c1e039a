----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications have in common.  A file of recorded       *)
(* traces is checked at once: they are independent of each other, and each *)
(* is an initial state of its own.  Each event is consumed by one named    *)
(* action, which also judges the observation recorded with it.             *)
(*                                                                         *)
(* The verdict depends on the property under check (PROP).  A difference   *)
(* between implementation and specification that is another property's     *)
(* business is not held against this one; if the two cannot be kept in     *)
(* step after it, the trace is given up ("dead").                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Prop == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid,      \* which trace
          l,        \* next event
          status,   \* "live", "dead", "bad"; "apart": see ReceiverTrace
          name,     \* the last action
          hits      \* how often each action was taken

basevars == <<tid, l, status, name, hits>>

T == Traces[tid]
ev == T.ev[l]

BaseInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ status = "live" /\ name = "Init" /\ hits = <<>>

On(e) == status = "live" /\ l <= Len(T.ev) /\ ev.e = e

Counted(n) == [x \in DOMAIN hits \cup {n} |->
                  (IF x \in DOMAIN hits THEN hits[x] ELSE 0) + (IF x = n THEN 1 ELSE 0)]

(* the event is consumed by action n, with the given verdict *)
Take(n, verdict) ==
    /\ l' = l + 1
    /\ name' = n
    /\ hits' = Counted(n)
    /\ status' = verdict
    /\ UNCHANGED tid

Verdict(violated, drifted) == IF violated THEN "bad" ELSE IF drifted THEN "dead" ELSE "live"

(* how a call that must return normally can fail *)
Crashed(r) == r \in {"panic", "abort", "hang"}

(* Deadlock checking is on: an event that no action takes is an error of
   the machinery.  The end of each trace is reported, for the evidence. *)
Ended == status \notin {"live", "apart"} \/ l > Len(T.ev)
Reported == Ended => PrintT("END " \o ToJson(<<tid, status, l - 1, name, hits>>))

(* A canary is a trace that was corrupted on purpose *)
Conforms == status = "bad" => "canary" \in DOMAIN T

View == <<tid, l>>

(* what is printed of a state *)
Brief == [tid |-> tid, l |-> l, status |-> status, name |-> name]
=============================================================================
