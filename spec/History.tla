------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* The history cache: changes in the order they were added.  A change is a *)
(* record with (at least) its sequence number sn, a canonical signed       *)
(* number of any width.                                                    *)
(***************************************************************************)
EXTENDS Bytes

VARIABLE cache

HistoryInit == cache = <<>>

AddChange(c) == cache' = Append(cache, c)

RemoveChange(n) == cache' = SelectSeq(cache, LAMBDA c : c.sn # n)

InCache == {cache[i] : i \in DOMAIN cache}
Numbers == {c.sn : c \in InCache}

(* what looking n up may give *)
Found(n) == {c \in InCache : c.sn = n}

LowestOf(S)  == CHOOSE x \in S : \A y \in S : ~SLt(y, x)
HighestOf(S) == CHOOSE x \in S : \A y \in S : ~SLt(x, y)

LowerBound(S) == IF S = {} THEN None ELSE LowestOf(S)
UpperBound(S) == IF S = {} THEN None ELSE HighestOf(S)
=============================================================================
