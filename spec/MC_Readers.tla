----------------------------- MODULE MC_Readers ----------------------------
(***************************************************************************)
(* The matched readers (C18): all histories of Depth additions.            *)
(***************************************************************************)
EXTENDS MatchedReaders, TLC, Json, IOUtils

CONSTANTS Depth, Guids
VARIABLE ops
vars == <<readers, ops>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

Init == ReadersInit /\ ops = <<>>
Next == /\ Len(ops) < Depth
        /\ \E g \in Guids : AddReader(g, Len(ops)) /\ ops' = Append(ops, g)
Spec == Init /\ [][Next]_vars

(* every reader is found under its GUID only, once, in the order of addition *)
Partition ==
    /\ \A g \in Guids : /\ \A i \in DOMAIN LookUp(g) : ops[LookUp(g)[i] + 1] = g
                        /\ \A i \in 1..(Len(LookUp(g)) - 1) : LookUp(g)[i] < LookUp(g)[i + 1]
    /\ \A k \in DOMAIN ops : \E i \in DOMAIN LookUp(ops[k]) : LookUp(ops[k])[i] = k - 1
Emitted == Emit /\ Len(ops) = Depth => PrintT("SCHEDULE " \o ToJson([guids |-> ops]))
=============================================================================
