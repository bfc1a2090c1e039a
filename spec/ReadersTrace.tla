---------------------------- MODULE ReadersTrace ---------------------------
(***************************************************************************)
(* Checks recorded executions of the registries of the real writers: the   *)
(* matched readers of a stateful writer, the reader locators of a          *)
(* stateless one (C18).                                                    *)
(***************************************************************************)
EXTENDS MatchedReaders, StatelessWriter, TraceBase

tvars == <<readers, wvars, basevars>>

Init == BaseInit /\ ReadersInit /\ WriterInit(0, <<>>)

Good == ev.r = "ok"

TMatch  == On("match") /\ AddReader(ev.g, ev.t) /\ UNCHANGED wvars /\ Take("AddReader", Verdict(~Good, FALSE))
TLookUp ==
    /\ On("lookup")
    /\ Take(IF LookUp(ev.g) = <<>> THEN "LookUpNone" ELSE "LookUp", Verdict(~(Good /\ ev.ts = LookUp(ev.g)), FALSE))
    /\ UNCHANGED <<readers, wvars>>
TAdd    == On("add") /\ AddLocator(ev.i) /\ UNCHANGED readers /\ Take("AddLocator", Verdict(~Good, FALSE))
TRemove == On("remove") /\ RemoveLocator(ev.i) /\ UNCHANGED readers /\ Take("RemoveLocator", Verdict(~Good, FALSE))
TShow   ==
    /\ On("show")
    /\ Take("Show", Verdict(~(Good /\ ev.is = locators), FALSE))
    /\ UNCHANGED <<readers, wvars>>

Finished == Ended /\ UNCHANGED tvars

Next == TMatch \/ TLookUp \/ TAdd \/ TRemove \/ TShow \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
