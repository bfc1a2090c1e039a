----------------------------- MODULE MC_History ----------------------------
(***************************************************************************)
(* The history cache with one-byte numbers, all histories of Depth         *)
(* operations (C14, C15).  The properties are stated over the history      *)
(* itself.                                                                 *)
(***************************************************************************)
EXTENDS History, TLC, Json, IOUtils

CONSTANTS Depth, Ns

VARIABLE ops
vars == <<cache, ops>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

QuickNs == {<<254>>, <<0>>, <<3>>}          \* -2, 0, 3
DeepNs  == {<<128>>, <<254>>, <<0>>, <<3>>, <<127>>}

Init == HistoryInit /\ ops = <<>>

(* the tag tells apart changes with the same number *)
Add(n) == /\ AddChange([sn |-> n, tag |-> Len(ops) + 1])
          /\ ops' = Append(ops, [op |-> "a", n |-> n])
Del(n) == /\ RemoveChange(n)
          /\ ops' = Append(ops, [op |-> "r", n |-> n])
Next == Len(ops) < Depth /\ \E n \in Ns : Add(n) \/ Del(n)
Spec == Init /\ [][Next]_vars

(* the changes with number n added since its last removal *)
Alive(n) == {i \in DOMAIN ops : /\ ops[i].op = "a" /\ ops[i].n = n
                                /\ \A j \in (i + 1)..Len(ops) : ~(ops[j].op = "r" /\ ops[j].n = n)}

HoldsExactly == \A n \in Ns : Found(n) = {[sn |-> n, tag |-> i] : i \in Alive(n)}

Val(n) == IF n[1] >= 128 THEN n[1] - 256 ELSE n[1]
Bounds ==
    LET S == {n \in Ns : Found(n) # {}}
    IN  IF S = {} THEN LowerBound(Numbers) = None /\ UpperBound(Numbers) = None
        ELSE /\ LowerBound(Numbers) \in S /\ \A n \in S : Val(LowerBound(Numbers)) <= Val(n)
             /\ UpperBound(Numbers) \in S /\ \A n \in S : Val(UpperBound(Numbers)) >= Val(n)

(* the others stay as they are *)
OthersStay == [][\A n \in Ns : ops'[Len(ops')].op = "r" /\ ops'[Len(ops')].n # n => Found(n)' = Found(n)]_vars

Emitted == Emit /\ Len(ops) = Depth => PrintT("SCHEDULE " \o ToJson([ops |-> ops]))
=============================================================================
