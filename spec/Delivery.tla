------------------------------ MODULE Delivery -----------------------------
(***************************************************************************)
(* A stateless writer whose changes go into a history cache, and reader    *)
(* proxies that drain the cache, each at its own pace.  Which changes a    *)
(* proxy still has to hand out is stated here by the changes' identity     *)
(* (when they were made), not by comparing numbers: handed[p] holds the    *)
(* changes it has handed out.  MC_Delivery checks that proxies that only   *)
(* remember a number (Proxy) do the same.                                  *)
(***************************************************************************)
EXTENDS History

VARIABLES made,       \* how many changes were made
          handed      \* handed[p]: the changes proxy p has handed out, in order

dvars == <<cache, made, handed>>

Range(s) == {s[i] : i \in DOMAIN s}

DeliveryInit(n) ==
    /\ HistoryInit
    /\ made = 0
    /\ handed = [p \in 1..n |-> <<>>]

(* the change c was made, and put into the cache or not *)
Write(c) ==
    /\ made' = made + 1
    /\ AddChange([sn |-> c.sn, id |-> made + 1, c |-> c])
    /\ UNCHANGED handed

SkipWrite(c) ==
    /\ made' = made + 1
    /\ UNCHANGED <<cache, handed>>

Remove(n) == RemoveChange(n) /\ UNCHANGED <<made, handed>>

Pending(p) == InCache \ Range(handed[p])

(* changes are made in the order of their numbers: the oldest is the lowest *)
Oldest(p) == CHOOSE c \in Pending(p) : \A d \in Pending(p) : c.id <= d.id

HandOutNext(p) ==
    /\ Pending(p) # {}
    /\ handed' = [handed EXCEPT ![p] = Append(@, Oldest(p))]
    /\ UNCHANGED <<cache, made>>

HandOutNothing(p) ==
    /\ Pending(p) = {}
    /\ UNCHANGED dvars

JoinProxy == handed' = Append(handed, <<>>) /\ UNCHANGED <<cache, made>>
=============================================================================
