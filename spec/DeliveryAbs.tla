--------------------------- MODULE DeliveryAbs -----------------------------
(***************************************************************************)
(* Delivery (C19) and the proxies it needs (C17) for any number of changes,*)
(* proxies and operations and numbers of any size: proofs/DeliveryProof.    *)
(*                                                                         *)
(* The same actions as Delivery and Proxy, over integers: what is left out *)
(* is how numbers are represented (MC_Bytes) and the contents of a change  *)
(* (its number identifies it: the writer never repeats one).  MC_Delivery  *)
(* checks that Delivery and Proxy refine this.                             *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Proxies,   \* all that may ever join
          First      \* the number before the first change
ASSUME FirstIsInt == First \in Int

VARIABLES cache,     \* numbers of the changes in the cache
          last,      \* of the last change made
          joined,    \* proxies that have joined
          top,       \* top[p]: the number proxy p remembers, if it has one
          any,       \* any[p]: has it?
          handed,    \* handed[p]: the numbers it has handed out
          gone       \* gone[p]: those removed after p joined and before it reached them
avars == <<cache, last, joined, top, any, handed, gone>>

Init ==
    /\ cache = {} /\ last = First
    /\ joined \in SUBSET Proxies
    /\ top = [p \in Proxies |-> First]
    /\ any = [p \in Proxies |-> FALSE]
    /\ handed = [p \in Proxies |-> {}]
    /\ gone = [p \in Proxies |-> {}]

(* what a proxy that remembers a number takes for unsent, and hands out *)
Unsent(p) == {n \in cache : ~any[p] \/ n > top[p]}
Candidate(p, n) == n \in Unsent(p) /\ \A m \in Unsent(p) : n <= m

(* what it has to hand out *)
Pending(p) == cache \ handed[p]

Write  == /\ last' = last + 1
          /\ cache' = cache \cup {last + 1}
          /\ UNCHANGED <<joined, top, any, handed, gone>>
Skip   == /\ last' = last + 1
          /\ UNCHANGED <<cache, joined, top, any, handed, gone>>
Remove(n) == /\ n \in cache
             /\ cache' = cache \ {n}
             /\ gone' = [p \in Proxies |-> IF p \in joined /\ n \in Pending(p) THEN gone[p] \cup {n} ELSE gone[p]]
             /\ UNCHANGED <<last, joined, top, any, handed>>
Join(p) == /\ p \in Proxies /\ joined' = joined \cup {p}
           /\ UNCHANGED <<cache, last, top, any, handed, gone>>
HandOut(p, n) == /\ p \in joined /\ Candidate(p, n)
                 /\ top' = [top EXCEPT ![p] = n]
                 /\ any' = [any EXCEPT ![p] = TRUE]
                 /\ handed' = [handed EXCEPT ![p] = @ \cup {n}]
                 /\ UNCHANGED <<cache, last, joined, gone>>

Next == \/ Write \/ Skip
        \/ \E n \in cache : Remove(n)
        \/ \E p \in Proxies : Join(p) \/ \E n \in cache : HandOut(p, n)
Spec == Init /\ [][Next]_avars

-----------------------------------------------------------------------------
(* a proxy that remembers one number knows what it has to hand out *)
SameUnsent == \A p \in Proxies : Unsent(p) = Pending(p)

(* no change is handed out that was removed before the proxy reached it *)
NeverRemoved == \A p \in Proxies : handed[p] \cap gone[p] = {}

(* what is handed out is in the cache, above everything before: once and in order *)
OnceInOrder ==
    \A p \in Proxies : \A n \in handed'[p] \ handed[p] :
        n \in cache /\ \A m \in handed[p] : m < n

(* nothing is forgotten: a pending change stays pending until it is handed out or removed *)
Kept ==
    \A p \in Proxies : \A n \in Pending(p) : n \in Pending(p)' \/ n \in handed'[p] \/ n \notin cache'

(* nothing that was handed out is taken back *)
Grows == \A p \in Proxies : handed[p] \subseteq handed'[p]
=============================================================================
