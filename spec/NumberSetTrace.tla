--------------------------- MODULE NumberSetTrace --------------------------
(***************************************************************************)
(* Checks recorded executions of the real number sets against NumberSet.   *)
(***************************************************************************)
EXTENDS NumberSet, TraceBase

VARIABLE wired      \* the set has come from the wire

tvars == <<nvars, basevars, wired>>

Init ==
    /\ BaseInit
    /\ NumberSetInit(Traces[tid].ty = "sn", Traces[tid].base)
    /\ wired = FALSE

(* C12 is about sets that were filled by insertion, C13 about the wire *)
Mine == Prop = (IF wired THEN "C13" ELSE "C12")

Judge(n, good) == Take(n, Verdict(~good /\ Mine, ~good))

TAccept ==
    /\ On("ins") /\ Accept(ev.v)
    /\ Judge("Accept", ev.r = "ok" /\ ev.acc)
    /\ UNCHANGED wired

TRefuse ==
    /\ On("ins") /\ Refuse(ev.v)
    /\ Judge("Refuse", ev.r = "ok" /\ ~ev.acc)
    /\ UNCHANGED wired

TIterate ==
    /\ On("iter")
    /\ Judge("Iterate", ev.r = "ok" /\ ev.base = base /\ IsIteration(ev.ms))
    /\ UNCHANGED <<nvars, wired>>

TWire ==
    /\ On("wire") /\ ThroughWire(ev.le)
    /\ wired' = TRUE
    /\ Take("Wire", Verdict(ev.r # "ok" /\ Prop = "C13", ev.r # "ok"))

TRead ==
    /\ On("read") /\ ReadSet(ev.b, ev.le)
    /\ wired' = TRUE
    /\ Take("Read", Verdict(ev.r # "ok" /\ Prop = "C13", ev.r # "ok"))

TReject ==
    /\ On("read") /\ RejectSet(ev.b, ev.le)
    /\ Take("Reject", Verdict(ev.r # "err" /\ Prop = "C13", ev.r # "err"))
    /\ UNCHANGED wired

Finished == Ended /\ UNCHANGED tvars

Next == TAccept \/ TRefuse \/ TIterate \/ TWire \/ TRead \/ TReject \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
