----------------------------- MODULE ProxyTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions of real reader proxies against Proxy (C17).  *)
(***************************************************************************)
EXTENDS Proxy, TraceBase

VARIABLE list       \* the changes that are presented: [sn |-> number]

tvars == <<top, list, basevars>>

Init == BaseInit /\ ProxiesInit(Traces[tid].n) /\ list = <<>>

Fine(n) == Take(n, "live")

TAppend  == On("append")  /\ list' = Append(list, [sn |-> ev.sn])       /\ UNCHANGED top /\ Fine("Append")
TPrepend == On("prepend") /\ list' = <<[sn |-> ev.sn]>> \o list         /\ UNCHANGED top /\ Fine("Prepend")
TDrop    == On("drop")    /\ list' = [i \in 1..(Len(list) - 1) |-> list[IF i < ev.i THEN i ELSE i + 1]]
                                                                        /\ UNCHANGED top /\ Fine("Drop")
TClear   == On("clear")   /\ list' = <<>>                               /\ UNCHANGED top /\ Fine("Clear")

Good == ev.r = "ok"

THandOut ==
    /\ On("next") /\ Unsent(ev.p, list) # {}
    /\ \E i \in LET cs == Candidates(ev.p, list)
                IN  {IF Good /\ ev.i \in cs THEN ev.i ELSE CHOOSE j \in cs : TRUE} :
          /\ HandOut(ev.p, list, i)
          /\ Take("HandOut", Verdict(~(Good /\ ev.i = i), FALSE))
    /\ UNCHANGED list

TNothing ==
    /\ On("next")
    /\ NothingUnsent(ev.p, list)
    /\ Take("NothingUnsent", Verdict(~(Good /\ ev.i = 0), FALSE))
    /\ UNCHANGED list

(* each unsent change once, in any order *)
TList ==
    /\ On("unsent")
    /\ LET good == /\ Good
                   /\ {ev.is[i] : i \in DOMAIN ev.is} = Unsent(ev.p, list)
                   /\ Len(ev.is) = Cardinality(Unsent(ev.p, list))
       IN  Take("List", Verdict(~good, FALSE))
    /\ UNCHANGED <<top, list>>

Finished == Ended /\ UNCHANGED tvars

Next == TAppend \/ TPrepend \/ TDrop \/ TClear \/ THandOut \/ TNothing \/ TList \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
