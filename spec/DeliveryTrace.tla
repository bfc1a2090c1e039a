--------------------------- MODULE DeliveryTrace ---------------------------
(***************************************************************************)
(* Checks recorded executions of a real writer, cache and proxies, put     *)
(* together, against Delivery (C19).  What is judged is what the proxies   *)
(* hand out: the changes as the writer made them, each once, by number.    *)
(***************************************************************************)
EXTENDS Delivery, TraceBase

tvars == <<dvars, basevars>>

Init == BaseInit /\ DeliveryInit(Traces[tid].n)

Good == ev.r = "ok"

(* a writer that makes no change is not this property's business *)
TWrite == /\ On("write")
          /\ IF Good THEN Write(ev.c) ELSE UNCHANGED dvars
          /\ Take("Write", Verdict(FALSE, ~Good))
TSkip  == /\ On("skip")
          /\ IF Good THEN SkipWrite(ev.c) ELSE UNCHANGED dvars
          /\ Take("SkipWrite", Verdict(FALSE, ~Good))
TRemove == On("remove") /\ Remove(ev.n) /\ Take("Remove", Verdict(FALSE, ~Good))
TJoin   == On("join") /\ JoinProxy /\ Take("Join", "live")

LastOf(p) == handed[p][Len(handed[p])]
Higher(p, c) == handed[p] = <<>> \/ SLt(LastOf(p).sn, c.sn)

TNext ==
    /\ On("next")
    /\ LET c == Oldest(ev.p)
       IN  /\ HandOutNext(ev.p)
           /\ Take("HandOutNext", Verdict(~(Good /\ ev.got = <<c.c>> /\ Higher(ev.p, c)), FALSE))

TNothing ==
    /\ On("next")
    /\ HandOutNothing(ev.p)
    /\ Take("HandOutNothing", Verdict(~(Good /\ ev.got = <<>>), FALSE))

Finished == Ended /\ UNCHANGED tvars

Next == TWrite \/ TSkip \/ TRemove \/ TJoin \/ TNext \/ TNothing \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
