---------------------------- MODULE WriterTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions of the real stateless writer against         *)
(* StatelessWriter (C16).                                                  *)
(***************************************************************************)
EXTENDS StatelessWriter, TraceBase

tvars == <<wvars, basevars>>

Init == BaseInit /\ WriterInit(Traces[tid].g, Traces[tid].last)

Good == ev.r = "ok"

TMake ==
    /\ On("make") /\ MakeChange(ev.k, ev.h)
    /\ Take("Make", Verdict(~(Good /\ ev.c = MadeChange(ev.k, ev.h) /\ ev.last = last'), FALSE))

(* above the highest number nothing is specified *)
TMakeNone ==
    /\ On("make") /\ ~CanMake
    /\ Take("MakeNone", "dead")
    /\ UNCHANGED wvars

TAdd    == On("add") /\ AddLocator(ev.i) /\ Take("AddLocator", Verdict(FALSE, ~Good))
TRemove == On("remove") /\ RemoveLocator(ev.i) /\ Take("RemoveLocator", Verdict(FALSE, ~Good))

TState ==
    /\ On("state")
    /\ Take("State", Verdict(~(Good /\ ev.last = last /\ ev.g = guid), FALSE))
    /\ UNCHANGED wvars

Finished == Ended /\ UNCHANGED tvars

Next == TMake \/ TMakeNone \/ TAdd \/ TRemove \/ TState \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
