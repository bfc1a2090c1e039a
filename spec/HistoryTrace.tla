---------------------------- MODULE HistoryTrace ---------------------------
(***************************************************************************)
(* Checks recorded executions of the real history cache against History.   *)
(***************************************************************************)
EXTENDS History, TraceBase

tvars == <<cache, basevars>>

Init == BaseInit /\ HistoryInit

(* a call that does not return cannot be followed *)
Returned == ev.r = "ok"

TAdd ==
    /\ On("add") /\ AddChange(ev.c)
    /\ Take("Add", Verdict(~Returned /\ Prop = "C14", ~Returned))

TRemove ==
    /\ On("remove") /\ RemoveChange(ev.n)
    /\ Take("Remove", Verdict(~Returned /\ Prop = "C14", ~Returned))

TFind ==
    /\ On("get") /\ Found(ev.n) # {}
    /\ LET good == Returned /\ Len(ev.got) = 1 /\ ev.got[1] \in Found(ev.n)
       IN  Take("Find", Verdict(~good /\ Prop = "C14", ~Returned))
    /\ UNCHANGED cache

TFindNothing ==
    /\ On("get") /\ Found(ev.n) = {}
    /\ Take("FindNothing", Verdict(~(Returned /\ ev.got = <<>>) /\ Prop = "C14", ~Returned))
    /\ UNCHANGED cache

(* C15 is about what can be looked up, C14 about what should be *)
Seen == {ev.found[i] : i \in DOMAIN ev.found}

TBounds ==
    /\ On("bounds")
    /\ LET good == /\ Returned
                   /\ IF Prop = "C14" THEN Seen = Numbers
                      ELSE ev.min = LowerBound(Seen) /\ ev.max = UpperBound(Seen)
       IN  Take(IF Numbers = {} THEN "NoBounds" ELSE "Bounds", Verdict(~good, FALSE))
    /\ UNCHANGED cache

Finished == Ended /\ UNCHANGED tvars

Next == TAdd \/ TRemove \/ TFind \/ TFindNothing \/ TBounds \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
