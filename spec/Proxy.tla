------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* Reader proxies.  Each remembers the highest number it has handed out    *)
(* (None at first).  A list of changes is a sequence of records with a     *)
(* sequence number sn; it may be another one in every call.                *)
(***************************************************************************)
EXTENDS Bytes

VARIABLE top       \* top[p]: the highest number proxy p has handed out

ProxiesInit(n) == top = [p \in 1..n |-> None]

Above(p, n) == top[p] = None \/ SLt(top[p], n)

(* positions of the unsent changes of a list *)
Unsent(p, list) == {i \in DOMAIN list : Above(p, list[i].sn)}

(* positions that may be handed out next: those with the lowest number *)
Candidates(p, list) ==
    LET unsent == Unsent(p, list)
    IN  {i \in unsent : \A j \in unsent : ~SLt(list[j].sn, list[i].sn)}

HandOut(p, list, i) ==
    /\ i \in Candidates(p, list)
    /\ top' = [top EXCEPT ![p] = list[i].sn]

NothingUnsent(p, list) ==
    /\ Unsent(p, list) = {}
    /\ UNCHANGED top

Join == top' = Append(top, None)
=============================================================================
